#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("P01", "Ticks are valid quotes: bid<=ask, aware time, exact spread and midpoint",
  "A tick is built exactly when bid and ask are ints or floats with bid not above ask and the datetime (python or arrow) carries a timezone; every other input raises an estrade error and builds nothing. "
  "An accepted tick reports the bid and ask it was given and the same instant on the same local clock it was given; asdict() reports the same figures and datetime, as text to the second on request; its metadata is what it was given, or an empty mapping of its own. "
  "For quotes in whole cents its spread is ask minus bid and its value is the midpoint, both to the nearest cent (for finer quotes the spread is ask minus bid to the nearest cent and the value lies within one cent of the midpoint).",
  ["inputs"], "every bid, ask (sign, magnitude, int/float, equal, wrong type), every datetime type, timezone and microsecond",
  "The tests fix a handful of price pairs and one datetime per case; the rule is arithmetic over all pairs and all aware instants.",
  ["estrade/tick.py", "estrade/mixins/timed.py"],
  [("value checks and bid>ask test in the constructor", "estrade/tick.py:Tick.__init__"), ("spread/value rounding", "estrade/tick.py:Tick.spread,value"), ("datetime setter", "estrade/mixins/timed.py")],
  observe=["Tick(...)", "Tick.bid/ask/spread/value/datetime/datetime_utc/asdict()"])

p("P02", "An epic accepts ticks in chronological order only, and refusals are atomic",
  "An epic accepts a tick exactly when its instant is not before the instant of the last tick it accepted (an equal instant is accepted), whatever timezones the two were expressed in and across daylight-saving changes. "
  "A refused tick raises an epic error and leaves the epic's last tick, market flag, frames, indicators, trades and strategies exactly as they were, with no strategy called. "
  "An accepted tick becomes the epic's last tick, expressed in the epic's timezone at the same instant.",
  ["inputs", "histories"], "every sequence of ticks, in any mix of input timezones, including equal instants, one-microsecond steps back and DST transitions",
  "Tests send two or three ticks in one timezone; the comparison must be right for every pair of instants and zones, and atomicity for every state.",
  ["estrade/epic.py", "estrade/mixins/timed.py"],
  [("timezone conversion and anteriority test", "estrade/epic.py:Epic.on_new_tick")],
  [("last_tick", "last accepted tick", "estrade/epic.py:Epic.last_tick")], ["Epic.on_new_tick", "Epic.last_tick"])

p("P03", "The market-open flag follows local hours, trading days and holidays",
  "After every accepted tick the epic is flagged open (both by its flag and by asking whether the market is open) exactly when the tick's time of day in the epic's own timezone lies between opening and closing time inclusive, its local weekday is a trading day and its local date is not a holiday, by the hours, days and holidays in force when the tick arrives. "
  "Changing them later leaves the flag as it is until the next tick, while asking answers at once for the last tick under the new ones. Trading days default to Monday to Friday.",
  ["inputs", "configurations"], "every instant (to the microsecond, across date changes between UTC and local), timezone, opening/closing time, trading-day list and holiday list, and every change of them between ticks",
  "Tests mock the hour test or try a few times in UTC-like zones; boundaries, local-date shifts and configurations are unbounded.",
  ["estrade/epic.py"],
  [("hours, weekday and holiday tests", "estrade/epic.py:Epic.is_market_open,_in_market_hours"), ("flag update per tick", "estrade/epic.py:Epic.on_new_tick")],
  [("market_open", "flag after last accepted tick", "estrade/epic.py:Epic.market_open")], ["Epic.market_open", "Epic.is_market_open()"])

p("P04", "Each accepted tick calls each active strategy once, in a fixed order",
  "For every accepted tick each active strategy registered on that epic when the tick arrives gets exactly one every-tick callback, preceded by exactly one market-open-tick callback when the market is open at that tick (none when closed), itself preceded by the market-open or market-close event if there is one. "
  "Strategies are served one after the other in registration order, each receiving the ticked epic; strategies not registered on that epic, and all strategies on a refused tick, are not called. "
  "Strategies registered from inside a callback are served from the next tick on, and ticks given to other epics from inside a callback are processed completely before it continues and change nothing of this order.",
  ["histories", "configurations"], "every tick history over several epics and any number of strategies, including strategies shared by epics and strategies that trade, pause, stop, register others or tick other epics inside callbacks",
  "Tests call the private dispatch with mocks for one strategy; order and multiplicity over whole histories are not observed.",
  ["estrade/epic.py", "estrade/strategy.py"],
  [("dispatch loop", "estrade/epic.py:Epic._execute_strategies")], [("strategies", "registered strategies by ref", "estrade/epic.py:Epic.strategies")], ["BaseStrategy.on_* callbacks"])

p("P05", "Market open/close events fire exactly on the transitions of the open flag",
  "An active strategy receives the market-open event on a tick exactly when the market is open at that tick and was not at the epic's previously accepted tick (initially closed), and the market-close event exactly when it is closed and was open; never both and never otherwise. "
  "Hence for a strategy active throughout and callbacks that do not fail, open and close events of one epic strictly alternate, starting with open.",
  ["histories"], "every tick history: any number of sessions, days, holidays, gaps longer than a session, several epics with different hours",
  "Tests toggle a mocked flag once; alternation is a property of whole histories.",
  ["estrade/epic.py"], [("transition test", "estrade/epic.py:Epic.on_new_tick,_execute_strategies")],
  [("market_open", "flag before/after tick", "estrade/epic.py")], ["BaseStrategy.on_market_open/on_market_close"])

p("P06", "Stopped and paused strategies are skipped, pauses end on time",
  "A strategy is called for an accepted tick exactly when it is not stopped and, if paused, the tick's instant is at or after the end of the pause (compared as instants, whatever the timezones); the first tick at or after the end resumes it and clears the pause. "
  "Pausing or stopping one strategy changes nothing for the others.",
  ["histories", "inputs"], "every interleaving of pauses, stops, resumes and ticks, with the pause end before, at and after tick instants and in other timezones",
  "Tests check the pause predicate on three instants; histories with several strategies and re-pauses are not explored.",
  ["estrade/strategy.py", "estrade/epic.py"], [("activity test", "estrade/strategy.py:BaseStrategy.is_active,_is_paused")],
  [("paused_until", "end of pause", "estrade/strategy.py"), ("stopped", "stop flag", "estrade/strategy.py")], ["strategy callbacks", "BaseStrategy.paused_until/stopped", "BaseStrategy.is_active()"])

p("P07", "Strategies always see a fully updated epic: tick, flag, frames and trades",
  "Whenever a strategy callback runs, the epic's last tick is the tick being processed and its market flag is that tick's; every frame set of the epic has taken the tick in exactly once together with its indicators, computed under that same market flag; and every open trade on the epic is already valued at this tick. "
  "Trades a callback opens or closes are priced at that tick.",
  ["histories", "configurations"], "every tick history, any number of frame sets, indicators, open trades, strategies and callbacks that trade",
  "Tests assert that private steps are called, not what a callback can observe nor in what order state changes.",
  ["estrade/epic.py"], [("update order in tick processing", "estrade/epic.py:Epic.on_new_tick")],
  observe=["epic, frames, indicators and trades as read inside strategy callbacks"])

p("P08", "Epics are isolated: a tick or trade on one never changes another",
  "A tick on one epic changes only that epic's last tick, flag, frames and indicators and only the trades opened on that epic; trades of every other epic keep their current value, results and extremes even when both epics share one trade provider. "
  "Opening or closing a trade on one epic never closes, revalues or resizes a trade of another epic.",
  ["histories", "configurations"], "every interleaving of ticks, opens and closes over several epics with shared or separate providers and strategies",
  "Tests use a single epic per provider.",
  ["estrade/epic.py", "estrade/trade_provider.py"], [("revaluation loop", "estrade/epic.py:Epic._update_open_trades"), ("netting loop", "estrade/trade_provider.py:TradeProviderBacktests.open_trade")],
  observe=["Trade.* of all epics after each operation"])

p("P09", "Trade quantities are conserved and closes are clamped to what is open",
  "At all times a trade's opened quantity plus its closed quantity equals its open quantity, closed quantity is the sum of its closes, both are non-negative, and the trade is closed exactly when nothing is left open. "
  "A close takes the requested quantity, or everything still open when none is given, and never more than is open; an explicit quantity of zero closes nothing. "
  "Once closed a trade never reopens.",
  ["inputs", "histories"], "every quantity and every sequence of partial, excessive, default and repeated closes through every closing entry point",
  "Tests do one or two closes; conservation must hold for every sequence and entry point.",
  ["estrade/trade.py"], [("clamping", "estrade/trade.py:Trade.close"), ("derived quantities", "estrade/trade.py:closed_quantities,opened_quantities,closed")],
  [("closes", "list of closes", "estrade/trade.py:Trade.closes"), ("open_quantity", "quantity opened", "estrade/trade.py")],
  ["Trade.opened_quantities/closed_quantities/closed/closes"])

p("P10", "Trades are priced on the right side and results add up to the cent",
  "A trade opened from the market starts at ask for a BUY and at bid for a SELL, and is valued and closed at the opposite side (bid for BUY, ask for SELL). Both carry the instant of the epic's last tick, on the epic's local clock. "
  "The per-unit result of each close and of the open part is the signed price difference to the cent; a close's result is that times its quantity; closed result is the sum over closes, open result the per-unit result times the opened quantity, the total is their sum, and the averages are those results divided by the closed (respectively whole) quantity, to the cent.",
  ["inputs", "histories"], "every direction, price path (zero, negative, sub-cent), quantity and sequence of updates and partial closes",
  "Tests check each formula on mocked values separately; agreement of all figures after arbitrary histories is not examined.",
  ["estrade/trade.py"], [("side selection", "estrade/trade.py:open_from_tick,update_from_tick"), ("result properties", "estrade/trade.py:Trade.result,...,TradeClose.result")],
  [("current_close_value", "price the open part is valued at", "estrade/trade.py")], ["Trade.result*", "Trade.opened_result*", "Trade.closed_result*", "TradeClose.result*", "Trade.asdict()"])

p("P11", "Realised results are final",
  "A recorded close never changes its quantity, price, time or result, and closes are only ever appended in the order they were made. "
  "After a trade is fully closed, no later tick, market update or direct update changes its prices, its results or its maximum and minimum result.",
  ["histories"], "every continuation of every history after a partial or full close: ticks, updates, further closes, netting by later trades",
  "A test updates one closed trade once; the property quantifies over all later events.",
  ["estrade/trade.py", "estrade/epic.py"], [("closed guard", "estrade/trade.py:Trade.update"), ("only open trades revalued", "estrade/trade_provider.py:opened_trades")],
  observe=["Trade.closes", "Trade.result", "Trade.max_result/min_result"])

p("P12", "Maximum and minimum result are the extremes of the result over time",
  "A trade's maximum and minimum result equal the largest and smallest total result the trade (with the quantity it was actually opened with) had right after it was opened and right after each price update it received while open. "
  "Consequently the maximum never decreases, the minimum never increases, and the result right after any update lies between them.",
  ["histories", "inputs"], "every price path, interleaved with partial closes, including monotone, flat and sign-changing paths",
  "Tests patch the result with mocks for one step.",
  ["estrade/trade.py"], [("extremes update", "estrade/trade.py:Trade._update_min_max")],
  [("max_result", "running maximum", "estrade/trade.py"), ("min_result", "running minimum", "estrade/trade.py")], ["Trade.max_result", "Trade.min_result"])

p("P13", "Backtest netting: opposite positions are closed first, exactly and newest first",
  "When a backtest trade is opened, opened trades of the same strategy and epic in the opposite direction are closed at the current market price, newest first, each by the smaller of its opened quantity and what remains of the new trade; the new trade opens with the remainder only, and is not recorded anywhere if nothing remains. "
  "Hence the signed net position of a strategy on an epic changes by exactly the quantity ordered, a strategy never holds both directions on one epic, and trades of other strategies, other epics or the same direction are untouched.",
  ["histories", "inputs"], "every sequence of orders: any number of opposite trades partly closed before, any quantities, several strategies, none, several epics",
  "Tests cover one opposite trade with a mock; several opposite trades, exact exhaustion and mixtures are not covered.",
  ["estrade/trade_provider.py"], [("netting loop", "estrade/trade_provider.py:TradeProviderBacktests.open_trade")],
  [("trades", "provider registry", "estrade/trade_provider.py")], ["Epic.open_trade", "Trade.closes", "TradeProvider.trades"])

p("P14", "Providers and strategies record each trade once; opened trades newest first",
  "Every trade opened through a provider with a quantity left to open is recorded exactly once in that provider and exactly once in its strategy (if any), in opening order, and nothing is ever removed or reordered. "
  "The provider's opened trades are exactly its recorded trades that are not fully closed, newest first. "
  "A provider other than the backtest one records a new trade with its full quantity and leaves all existing trades untouched. An epic built without a provider has a backtest provider of its own, shared with no other epic.",
  ["histories", "configurations"], "every sequence of opens and closes over several strategies, epics and providers",
  "Tests append one trade.",
  ["estrade/trade_provider.py"], [("registration", "estrade/trade_provider.py:BaseTradeProvider.open_trade"), ("listing", "estrade/trade_provider.py:BaseTradeProvider.opened_trades")],
  [("trades", "registry", "estrade/trade_provider.py"), ("trades", "strategy registry", "estrade/strategy.py")], ["TradeProvider.trades/opened_trades", "BaseStrategy.trades"])

p("P15", "Each open or close makes exactly one non-blocking provider request",
  "Every trade recorded by a provider leads to exactly one open request for that trade and every close made through an epic, a strategy or netting to exactly one close request for that close; opening and closing return without waiting for the request to finish. "
  "The provider reports being alive exactly while at least one of its requests is unfinished, and a slow or failing request affects neither the caller, the recorded trades nor other requests. "
  "The backtest provider's requests confirm each recorded trade and close.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of opens, closes and request completions, in any completion order, with any subset of requests failing",
  "Tests replace the thread class by a mock, so no schedule is ever run.",
  ["estrade/trade_provider.py"], [("thread per request", "estrade/trade_provider.py:BaseTradeProvider.open_trade,close_trade"), ("liveness", "estrade/trade_provider.py:BaseTradeProvider.is_alive")],
  [("threads", "request threads", "estrade/trade_provider.py")], ["open_trade_request/close_trade_request overrides", "TradeProvider.is_alive", "status of trades and closes"])

p("P16", "Strategy trade queries select exactly; closing all closes exactly the open ones",
  "A strategy's trade listing yields, newest first and each once, exactly its trades that are on one of the given epics (all if none given), not fully closed when only open ones are asked, and opened at or after the given instant when one is given (trades being opened in chronological order). "
  "Closing all opened trades of a strategy fully closes each of its opened trades at its own epic's current market price (or, given a quantity, takes that much from each of them, at most what is open) and touches no other trade.",
  ["histories", "inputs"], "every history of opens and closes over several epics and strategies and every combination of filters",
  "Tests use one filter on two or three mocked trades.",
  ["estrade/strategy.py"], [("filtering", "estrade/strategy.py:BaseStrategy.get_trades"), ("close all", "estrade/strategy.py:BaseStrategy.close_opened_trades")],
  observe=["BaseStrategy.get_trades()", "BaseStrategy.close_opened_trades()"])

p("P17", "Strategy result and profit factor aggregate exactly the given trades",
  "A strategy's result is the sum to the cent of the results of the trades it is given (a list or a generator, possibly empty), or of all its own trades when none are given. "
  "Its profit factor over the same trades is the sum of the non-negative results divided by the absolute sum of the negative ones, to two decimals, where losses totalling less than one count as one and without any loss it is the sum of gains itself.",
  ["inputs", "histories"], "every multiset of trade results (gains, losses, zeros, sub-unit losses), given as list, generator, subset or default, at any point of a history",
  "Tests evaluate a few mocked lists.",
  ["estrade/strategy.py"], [("aggregation", "estrade/strategy.py:BaseStrategy.result,profit_factor")], observe=["BaseStrategy.result()", "BaseStrategy.profit_factor()"])

p("P18", "CSV reports contain exactly the strategies' trades and figures",
  "A report writes one strategies file with one header and, per reported strategy in order, one row with its reference, number of trades, result and profit factor; and, if details are asked, one trades file per strategy with one row per trade, newest first, giving exactly the trade's reference, status, epic, strategy, opening date, direction, quantities, opening value and result. "
  "A report whose file already exists appends its rows after the existing content, without losing or altering any line and without repeating the header; the target folder is created when missing.",
  ["histories", "inputs"], "every set of strategies and trade histories, with or without details, repeated reports into the same file, references needing CSV quoting",
  "Tests mock the writer; no file written by a report is ever read back.",
  ["estrade/reporting/csv.py", "estrade/trade.py"], [("row building", "estrade/reporting/csv.py:ReportingCSV.report"), ("append or create", "estrade/reporting/csv.py:CSVWriter.dict_to_csv")],
  observe=["files in the target folder"])

p("P19", "Time-based frames partition time: right frame, contiguous, gaps filled flat",
  "In a time-based frame set every tick goes to exactly one frame, whose period (start included, end excluded, both on the epic's local clock and shown on it, or on the ticks' own for a frame set without an epic) contains it, and frames follow one another in time, each starting exactly where the previous one ends. "
  "A period in which no tick arrived is represented, once a later tick arrives, by one frame that holds only the last tick of the frame before it.",
  ["inputs", "histories", "configurations"], "every tick sequence (ticks on boundaries, one microsecond off, gaps of any length), every unit and quantity, every timezone",
  "Tests cover one gap on one or two units.",
  ["estrade/graph/frame_set.py", "estrade/mixins/timeframe.py"], [("frame-over test", "estrade/graph/frame_set.py:FrameSet.is_frame_over_timed"), ("gap filling", "estrade/graph/frame_set.py:FrameSet._create_new_frame_timed")],
  [("frames", "retained frames", "estrade/graph/frame_set.py")], ["FrameSet.frames", "Frame.period_start/period_end"])

p("P20", "Timeframe grid: starts and ends are aligned and invalid quantities refused",
  "For every unit and valid quantity the start of a datetime's timeframe is the latest grid point at or before it on the local clock: a multiple of the quantity within the minute (seconds), hour (minutes) or day (hours), midnight of the day, or of the Monday for seven days or a week, the first of a month whose index within the year is a multiple of the quantity, the first of January of a year multiple of the quantity; the end is the start moved by exactly that amount of calendar time and lies after the datetime. "
  "Quantities below one, and quantities that do not divide 60 (seconds, minutes), 12 (hours, months), 7 (days) or 1 (weeks) are refused with a timeframe error, all others accepted; tick timeframes start and end at the datetime itself.",
  ["inputs", "configurations"], "every instant (leap years, month and year ends, microseconds), unit, quantity and timezone",
  "Tests sample a few dates per unit.",
  ["estrade/mixins/timeframe.py"], [("start functions", "estrade/mixins/timeframe.py:_get_timeframe_start_*"), ("end", "estrade/mixins/timeframe.py:get_frame_end"), ("quantity check", "estrade/mixins/timeframe.py:_check_unit_consistency")],
  observe=["FrameSet.get_frame_start/get_frame_end", "FrameSet(unit, quantity)"])

p("P21", "Tick-count frames hold exactly N ticks and never span two days",
  "In a tick-based frame set of an epic every tick goes to exactly one frame, the current one until it has received its quantity of ticks or the local calendar day of the tick is later than that of the epic's previous tick, in which case a new frame starts with this tick at this tick's local time. "
  "Hence every frame but the last holds exactly the configured number of ticks or is the last of its day, and no frame mixes days.",
  ["histories", "configurations"], "every tick sequence, quantity and timezone, including day changes in local time that are none in UTC and several days skipped",
  "Tests mock the epic's last tick; in real processing it was already replaced, so the day rule was never exercised.",
  ["estrade/graph/frame_set.py", "estrade/epic.py"], [("frame-over test", "estrade/graph/frame_set.py:FrameSet.is_frame_over_tick")],
  observe=["FrameSet.frames", "Frame.nb_ticks"])

p("P22", "A frame's first, high, low, last and count describe exactly its ticks",
  "Each frame's first and last tick are the first and last ticks it received, its high and low ticks are among the ticks it received and have the largest and smallest value of them, and its tick count is their number (a frame filling a gap counts the single tick carried into it). "
  "Frames other than the current one never change these again.",
  ["inputs", "histories"], "every value sequence (monotone, ties, negative, zero) over any number of frames",
  "Tests add two ticks to one frame.",
  ["estrade/graph/frame_set.py"], [("frame update", "estrade/graph/frame_set.py:Frame.on_new_tick")],
  [("high_tick/low_tick", "extremes", "estrade/graph/frame_set.py")], ["Frame.first_tick/high_tick/low_tick/last_tick/nb_ticks"])

p("P23", "Frame history is bounded, consistently linked and addressable by offset",
  "A frame set retains exactly the most recent frames up to its configured maximum (at least one), oldest first; consecutive retained frames are linked to each other in both directions and the oldest has no previous frame. "
  "All retained frames are closed except the last, which is the current one. "
  "Asking the epic for offset k returns the k-th most recent retained frame (0 = current) and its indicator value, or nothing when there are not that many or the frame lacks that indicator.",
  ["histories", "configurations"], "every number of frames created (one at a time or many by one gap), every maximum, every offset",
  "Tests fill small sets by hand.",
  ["estrade/graph/frame_set.py", "estrade/epic.py"], [("eviction and links", "estrade/graph/frame_set.py:FrameSet.create_new_frame,clean_old_frames"), ("offset access", "estrade/epic.py:Epic.get_frame,get_indicator_value")],
  [("frames", "retained frames", "estrade/graph/frame_set.py")], ["FrameSet.frames/current", "Frame.previous_frame/next_frame/closed", "Epic.get_frame/get_indicator_value"])

p("P24", "Indicators see exactly the ticks they should, and link to their previous value",
  "An indicator has a value on a frame exactly when the frame took in at least one tick eligible for it since it was attached: any tick, or for a market-open-only indicator a tick taken in while the epic's market was open; that value's first, high, low and last ticks are those of the eligible ticks only. "
  "A value's previous value is that of the same indicator on the nearest earlier retained frame that has one, its next value that on the directly following frame, it belongs to that frame and indicator, shares the frame's tick count and is closed exactly when the frame is, and several indicators on a frame set do not influence each other.",
  ["histories", "configurations"], "every tick history over open and closed periods, frames that open or close within a session, any mix of gated and ungated indicators, indicators attached late",
  "Tests use one frame and a mocked market flag.",
  ["estrade/graph/base_indicator.py", "estrade/graph/frame_set.py"], [("gating", "estrade/graph/base_indicator.py:BaseIndicatorValue.on_new_tick,BaseIndicator.build_value_from_frame"), ("upsert", "estrade/graph/frame_set.py:Frame._upsert_indicators"), ("previous", "estrade/graph/base_indicator.py:BaseIndicatorValue.previous")],
  observe=["Frame.indicators", "BaseIndicatorValue.first_tick/high_tick/low_tick/last_tick/previous/next"])

p("P25", "Japanese candles report open, high, low, last, close, colour and shape",
  "A classic candle's open, high, low and last are the values of its first, highest, lowest and last eligible tick, and it has a close (equal to last) exactly once its frame is closed. "
  "Its colour is green, red or black as last is above, below or equal to open; height is high minus low, body the absolute difference of open and last, head the distance from high to the larger, tail from low to the smaller of open and last, for every value including zero and negative ones.",
  ["inputs", "histories"], "every sequence of tick values in every number of frames",
  "Tests patch the candle's own properties with constants.",
  ["estrade/graph/indicators/candle_set.py"], [("candle properties", "estrade/graph/indicators/candle_set.py:BaseCandle,JapaneseCandle")], observe=["candle properties of CandleSet values"])

p("P26", "Heikin-Ashi candles follow their recurrence",
  "A Heikin-Ashi candle's last is the mean to the cent of its first, highest, lowest and last eligible tick values; its open is its first value when it has no previous candle and otherwise the mean to the cent of the previous candle's open and last. "
  "Its high (low) is the largest (smallest) of its open, its last and its highest (lowest) tick value, it has a close equal to last exactly once its frame is closed, and colour, height, body, head and tail follow from these as for any candle.",
  ["inputs", "histories"], "every sequence of tick values over any number of frames, with gaps, gating and eviction",
  "Tests patch previous candles with constants.",
  ["estrade/graph/indicators/candle_set.py"], [("recurrence", "estrade/graph/indicators/candle_set.py:HeikinAshiCandle")], observe=["candle properties of Heikin-Ashi values"])

p("P27", "A simple moving average is the mean of the last closing values",
  "The moving average of a frame over k periods, for k up to the configured maximum, is the mean to the cent of the last value of that frame and those of the k-1 preceding frames that carry the indicator, current value included and updated at every tick. "
  "It is absent exactly when fewer than k such frames are available or k exceeds the maximum.",
  ["inputs", "histories", "configurations"], "every value sequence, maximum (including one) and period, over frames with gaps, gating and eviction",
  "Tests preset the list of closes.",
  ["estrade/graph/indicators/simple_moving_average.py"], [("closes carried from value to value", "estrade/graph/indicators/simple_moving_average.py:SimpleMovingAverageValue")],
  [("last_closes", "closes of earlier frames", "estrade/graph/indicators/simple_moving_average.py")], ["SimpleMovingAverageValue.get_value(k)"])

p("P28", "RSI is computed from the last N frame-to-frame changes",
  "With N = periods times the frame set's unit quantity, the RSI of a frame is 100*G/(G+L) to the cent, where G and L are the sums of the gains and of the absolute losses among the last N frame-to-frame changes of the closing value ending with the current frame's running change, updated at every tick; it is 100 when there is no loss and 0 when there are losses but no gain. "
  "It is absent until N changes exist, and an RSI needing more periods than the frames kept in memory is refused when attached.",
  ["inputs", "histories", "configurations"], "every value sequence, number of periods (including one) and unit quantity",
  "Tests preset the list of changes and mock the sums.",
  ["estrade/graph/indicators/rsi.py"], [("changes carried from value to value", "estrade/graph/indicators/rsi.py:RSIValue"), ("memory check", "estrade/graph/indicators/rsi.py:RSI.set_frame_set")],
  [("last_changes", "changes of earlier frames", "estrade/graph/indicators/rsi.py")], ["RSIValue.value"])

p("P29", "Pivot points derive from the previous frame by the published formulas",
  "A frame's pivot is (H+L+C)/3 to the cent, or (H+L+C+O)/4 for the OLHC type with O this frame's first value, where H, L, C are the high, low and last value of the previous frame carrying the indicator. "
  "S1=2P-H, S2=P-(H-L), S3=L-2(H-P), R1=2P-L, R2=P+(H-L), R3=H+2(P-L), to the cent, for every pivot value including zero and negative; all are absent exactly when there is no previous value.",
  ["inputs", "histories"], "every pair of consecutive frames and values, both pivot types",
  "Tests patch the pivot with one constant.",
  ["estrade/graph/indicators/pivot.py"], [("formulas", "estrade/graph/indicators/pivot.py:PivotTypeClassic,PivotTypeOLHC")], observe=["pivot, support1..3, resistance1..3 of Pivot values"])

p("P30", "Registration is unique by reference and lookups return what was registered",
  "Adding a second frame set or a second strategy with an already used reference to an epic raises an epic error and changes nothing; every other addition succeeds, links the object to the epic both ways and is found again under its reference, an indicator added to a frame set under a reference free on it is found under that reference and knows the frame set and, through it, the epic once there is one, and a tick provider finds exactly the epics it was given by their references. "
  "An epic can only be given a known timezone name; an unknown one raises and leaves the previous timezone. Objects created without a reference get a non-empty one.",
  ["inputs", "histories", "configurations"], "every sequence of registrations over several epics with colliding and distinct references",
  "Tests register one or two objects.",
  ["estrade/epic.py", "estrade/tick_provider.py", "estrade/mixins/ref.py", "estrade/graph/frame_set.py"], [("uniqueness checks", "estrade/epic.py:Epic.add_frame_set,add_strategy"), ("lookup", "estrade/tick_provider.py:get_epic_by_ref")],
  [("frame_sets", "by ref", "estrade/epic.py"), ("strategies", "by ref", "estrade/epic.py")], ["Epic.frame_sets/strategies", "BaseStrategy.epics", "BaseTickProvider.get_epic_by_ref"])

p("P31", "Trades and closes keep their identity, metadata and provider status",
  "A trade or close keeps for its whole life the reference it was given, or one made up when it was created, the metadata it was given, or an empty mapping of its own, and, for a trade, its epic, strategy and direction, and a close belongs to the trade it closes; only editing the metadata of that very trade or close changes it, and no other one's. "
  "Its status is the one it was given, CREATED when none was, until the provider's request for it ends without failing, from when on it is the one the request put on it (CONFIRMED for the backtest provider); a request that fails, or one made for another trade or close, leaves it alone. "
  "asdict() reports the trade's reference, the references of its epic and strategy, its direction and its status.",
  ["histories", "configurations"], "every history of trades and closes, with and without given references, metadata and statuses, metadata edited in place, netting, closing all and provider requests ending in any order, well or not",
  "Tests build one trade and look at it once; sharing of defaults and answers reaching the wrong trade only show over several trades and later events.",
  ["estrade/trade.py", "estrade/trade_provider.py", "estrade/mixins/ref.py", "estrade/mixins/meta.py", "estrade/mixins/transaction.py"],
  [("trade and close constructors", "estrade/trade.py:Trade.__init__,TradeClose.__init__"), ("requests", "estrade/trade_provider.py:TradeProviderBacktests.open_trade_request,close_trade_request"), ("metadata and reference mixins", "estrade/mixins/meta.py, estrade/mixins/ref.py")],
  [("status", "transaction status", "estrade/trade.py"), ("meta", "user data", "estrade/mixins/meta.py"), ("ref", "reference", "estrade/mixins/ref.py")],
  ["Trade.ref/meta/status/epic/strategy/direction/asdict()", "TradeClose.ref/meta/status/trade"])

p("P32", "A failing strategy callback costs the rest of its tick and nothing else",
  "When a strategy callback raises, that very exception reaches whoever gave the tick to the epic, and no further callback is made for that tick. "
  "Everything done before stays: the tick was accepted and fully taken in (last tick, flag, frames, trades revalued), earlier callbacks and whatever they traded keep their effects, and no strategy is stopped or paused by it. "
  "Ticks accepted afterwards, on this epic and on all others (also from inside whose callbacks the failing tick was given), are processed as if nothing had failed: same chronological test, same flag and market events relative to the previously accepted tick, same callbacks, trades, netting and records.",
  ["histories", "configurations"], "every history of ticks over several epics and strategies in which any callbacks fail at any point, before or after trading, pausing, stopping or ticking other epics",
  "Tests never let a callback fail; a half-finished tick only matters for the later ones.",
  ["estrade/epic.py", "estrade/strategy.py"],
  [("tick processing", "estrade/epic.py:Epic.on_new_tick,_execute_strategies")],
  [("last_tick", "last accepted tick", "estrade/epic.py"), ("market_open", "flag", "estrade/epic.py")],
  ["Epic.on_new_tick", "BaseStrategy.on_* callbacks", "Epic.last_tick/market_open", "Trade.*"])

p("P33", "Orders that cannot be taken are refused and change nothing",
  "Asking for a trade whose direction is neither BUY nor SELL, through a strategy, an epic or Trade.open_from_tick/open_from_epic, raises an estrade exception; so does building a trade, closing one, or setting the datetime of a trade or close with anything but a datetime that has a timezone. "
  "Such a refused order changes nothing that can be observed: no trade is recorded by the provider or the strategy and none is netted, no close is added, no provider request is made, quantities, values, results, extremes, datetimes, statuses, registries and liveness of every trade, close, strategy, provider and epic are what they were, and later ticks and orders are processed as if it had never been given, also when it was given from inside a strategy callback.",
  ["histories", "configurations"], "every history of ticks, trades and closes, on backtest and other providers, with orders that cannot be taken at any point, inside callbacks too, for open, partly closed and closed trades and requests still running",
  "Tests only look at the exception of one such call on a mocked object; what it leaves behind shows in the registries, the quantities and the later events.",
  ["estrade/trade.py", "estrade/epic.py", "estrade/mixins/timed.py", "estrade/trade_provider.py"],
  [("opening", "estrade/trade.py:Trade.open_from_tick"), ("closing", "estrade/trade.py:Trade.close"), ("moments", "estrade/mixins/timed.py")],
  [("closes", "closes of a trade", "estrade/trade.py"), ("trades", "registries", "estrade/trade_provider.py, estrade/strategy.py")],
  ["BaseStrategy.open_trade", "Epic.open_trade", "Trade.open_from_tick/open_from_epic", "Trade()", "Trade.close", "Trade.datetime", "TradeClose.datetime"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
