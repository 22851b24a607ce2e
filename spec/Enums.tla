--------------------------------- MODULE Enums ---------------------------------
(* The market-convention vocabularies: members, their written values, accepted   *)
(* aliases, default members and the numbers attached to them.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Days31 == {ToString(i) : i \in 1..31}
Values(c) ==
  CASE c = "ZeroCurveInterpMethod" -> {"linear_on_ln_discount", "cubic_spline_on_ln_discount", "cubic_spline_on_cczr"}
    [] c = "ZeroCurveExtrapMethod" -> {"none", "flat"}
    [] c = "PayRcv" -> {"pay", "rcv"}
    [] c = "BuySell" -> {"buy", "sell"}
    [] c = "DayCountBasis" -> {"30/360", "30e/360", "30e/360_isda", "act/360", "act/365", "act/act", "act/366"}
    [] c = "CompoundingFreq" -> {"simple", "continuous", "daily", "weekly", "monthly", "quarterly", "semiannual", "annual"}
    [] c = "PeriodFreq" -> {"daily", "weekly", "28days", "monthly", "quarterly", "semiannual", "annual", "zerocoupon"}
    [] c = "DayRoll" -> {"unadjusted", "eom"} \cup Days31
    [] c = "RollConv" -> {"unadjusted", "following", "preceding", "modifiedfollowing", "modifiedpreceding"}
    [] c = "TimingConvention" -> {"in_arrears", "in_advance"}
    [] c = "Stub" -> {"none", "short", "long", "default", "defined_per_first_period_end_date", "defined_per_last_period_start_date"}
    [] c = "ExchangeNotionals" -> {"start", "end", "both", "neither"}
Classes == {"ZeroCurveInterpMethod", "ZeroCurveExtrapMethod", "PayRcv", "BuySell", "DayCountBasis", "CompoundingFreq", "PeriodFreq", "DayRoll",
            "RollConv", "TimingConvention", "Stub", "ExchangeNotionals"}

\* the default of a vocabulary ("" when it has none: then a missing value is refused)
Default(c) == CASE c = "ZeroCurveInterpMethod" -> "linear_on_ln_discount" [] c = "ZeroCurveExtrapMethod" -> "none"
                [] c = "DayCountBasis" -> "act/act" [] c = "DayRoll" -> "unadjusted" [] c = "RollConv" -> "modifiedfollowing"
                [] c = "Stub" -> "default" [] c = "ExchangeNotionals" -> "neither" [] OTHER -> ""

PeriodAlias(v) ==
  CASE v = "daily" -> {"d", "day", "days", "1d", "1day", "1days"}
    [] v = "weekly" -> {"w", "week", "weeks", "wk", "1w", "1wk", "1week", "1weeks"}
    [] v = "28days" -> {"28d", "28day", "28 days"}
    [] v = "monthly" -> {"m", "month", "months", "mon", "1m", "1mo", "1month", "1months", "1 month", "per month"}
    [] v = "quarterly" -> {"q", "quarter", "quarters", "quart", "3m", "3mo", "3month", "3months", "3 months", "per quarter"}
    [] v = "semiannual" -> {"s", "sa", "semiannually", "semi", "6m", "6mo", "6month", "6months", "6 months"}
    [] v = "annual" -> {"a", "year", "years", "yrs", "yr", "annually", "1y", "1yr", "1year", "1years", "1 year", "per year"}
    [] v = "zerocoupon" -> {"z", "zc", "zero", "zero coupon", "zero_coupon"}
BasisAlias(v) ==
  CASE v = "30/360" -> {"30360"} [] v = "30e/360" -> {"30e360"} [] v = "30e/360_isda" -> {"30e/360 isda", "30e360_isda"}
    [] v = "act/360" -> {"actual/360", "act360", "actual360"} [] v = "act/365" -> {"actual/365", "act365", "actual365", "act/365fixed", "actual/365fixed"}
    [] v = "act/act" -> {"actual/actual", "actact", "actualactual"} [] v = "act/366" -> {"actual/366", "act366", "actual366"}
SpaceForm(v) == CASE v = "in_arrears" -> {"in arrears"} [] v = "in_advance" -> {"in advance"}
                  [] v = "linear_on_ln_discount" -> {"linear on ln discount"} [] v = "cubic_spline_on_cczr" -> {"cubic spline on cczr"}
                  [] v = "defined_per_first_period_end_date" -> {"defined per first period end date"} [] OTHER -> {}
Spellings(c, v) == {v} \cup (IF c = "PeriodFreq" THEN PeriodAlias(v) ELSE IF c = "DayCountBasis" THEN BasisAlias(v) ELSE SpaceForm(v))

\* text which means nothing in a vocabulary
Foreign(c) == (UNION {Values(k) : k \in Classes \ {c}} \cup {"x", "act", "360", "0", "32", "-1", "quarterlyy", "first", "act/365/366"})
              \ (UNION {Spellings(c, v) : v \in Values(c)} \cup (IF c = "PeriodFreq" THEN {"semi_annual"} ELSE {}))

\* numbers attached to members
Multiplier(v) == CASE v \in {"pay", "sell"} -> -1 [] v \in {"rcv", "buy"} -> 1
DaysPerYear(v) == CASE v \in {"30/360", "30e/360", "30e/360_isda", "act/360"} -> 360 [] v = "act/365" -> 365 [] v = "act/366" -> 366 [] v = "act/act" -> -1
PeriodsPerYear(v) == CASE v = "daily" -> 365 [] v = "weekly" -> 52 [] v = "monthly" -> 12 [] v = "quarterly" -> 4 [] v = "semiannual" -> 2 [] v = "annual" -> 1 [] OTHER -> -1
Number(c, v) == CASE c \in {"PayRcv", "BuySell"} -> Multiplier(v) [] c = "DayCountBasis" -> DaysPerYear(v) [] c = "CompoundingFreq" -> PeriodsPerYear(v) [] OTHER -> 0
=============================================================================
