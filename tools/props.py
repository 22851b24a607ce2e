prop('S01', 'Schedule periods tile the instrument life exactly',
     'Every schedule that is produced starts on the effective date, ends on the termination date, and its periods follow one another without gap or overlap: each period ends exactly where the next starts and has positive length. '
     'This holds for every frequency (including a single zero-coupon period), stub combination, user-specified first period end / last period start, roll day, business-day convention and calendar; when user dates are to be rolled, for the rolled dates. '
     'A request whose dates are consistent is served, and one whose effective date is not before its termination date is refused.',
     ['inputs', 'configurations'], 'all effective/termination date pairs, frequencies, stub and user-date combinations, conventions and calendars',
     'The unit tests compare a spreadsheet of a few dozen hand-picked schedules; gaps, zero-length and lost periods appear only for particular combinations of date, calendar, stub and rolling.',
     [SCH], [('generation loop and stub assembly', SCH + ':make_schedule, generate_date_schedule')], TLC_BOTH, N_INT,
     observe=['make_schedule', 'generate_date_schedule', 'BaseSchedule.df'])
prop('S02', 'Regular period dates are whole multiples of the frequency from the anchor',
     'Without user-specified interior dates, the i-th regular date lies exactly i whole periods from the anchor date (the termination date when the stub is at the start, the effective date when it is at the end), with months clipped to month length from the anchor itself so that month-end dates never drift. '
     'Each such date is then moved by the roll day and the business-day convention, dates that roll onto a neighbour create no period, and generation stops at the first date reaching the other end.',
     ['inputs', 'configurations'], 'all anchors, lengths, the eight frequencies, both directions, all conventions and calendars',
     'Drift and off-by-one errors need month-end anchors, leap years or long schedules that the sampled cases do not contain.',
     [SCH, 'frm/enums/utils.py'], [('offset multiplication', 'frm/enums/utils.py:PeriodFreq.multiply_date_offset'), ('generation loop', SCH + ':generate_date_schedule')],
     TLC_BOTH, N_INT, observe=['make_schedule', 'generate_date_schedule'])
prop('S03', 'Stubs and user-specified interior dates end up where requested',
     'A short stub leaves the irregular remainder as its own period at the requested end, a long stub merges it with the neighbouring regular period, and by default the stub is a short one at the start; a stub type requested for one end is never delivered at the other. '
     'A user-specified first period end or last period start is always a boundary of the schedule in exactly that place; the remaining dates follow whichever regular schedule contains the specified dates and otherwise are generated away from (or between) them. '
     'Requests for explicit stub types at both ends are refused.',
     ['inputs', 'configurations'], 'all combinations of first/last stub type, presence and position of the two user dates, direction alignment, frequency and length including lives shorter than one period',
     'The case analysis has dozens of branches times alignment cases; tests sample one input per described branch.',
     [SCH], [('stub case analysis', SCH + ':make_schedule')], TLC_BOTH, N_INT, observe=['make_schedule'])
prop('S04', 'Business-day conventions and roll days are applied as defined',
     'Every generated interior date is a business day of the calendar under the following, preceding, modified following (never leaving the month) and modified preceding conventions, and is left alone when unadjusted. '
     'A roll day 1-31 sets that day of the month (or the month end if shorter) and the end-of-month roll day the last calendar day, before the business-day convention is applied. '
     'User-supplied dates are rolled exactly when requested.',
     ['inputs', 'configurations'], 'all five conventions, 33 roll days, arbitrary weekmasks and holiday sets (runs of holidays across month ends), rolled and unrolled user dates',
     'Tests use the default Monday-Friday calendar without holidays and two conventions.',
     [SCH], [('busday_offset_timestamp, apply_specific_day_roll, roll_user_date', SCH + ':generate_date_schedule, make_schedule')], TLC_BOTH, N_INT,
     observe=['make_schedule', 'generate_date_schedule'])
prop('S05', 'Payment and fixing dates lag the right period boundary by business days',
     'For every period the payment (or fixing) date is the period end when in arrears and the period start when in advance, rolled by the schedule\'s business-day convention and then moved by the stated number of business days of the schedule\'s calendar, forwards or backwards. '
     'Rows that carry only a notional exchange get no such date.',
     ['inputs', 'configurations'], 'all schedules, timings, lags (including negative and zero), conventions, calendars and object classes',
     'No test covers payment dates; the effect of lag, timing and calendar only shows around holidays.',
     [SCH], [('BaseSchedule.add_payment_dates', SCH)], TLC_TRACE, N_INT, observe=['BaseSchedule.df', 'NotionalSchedule.df', 'CouponSchedule.df'])
prop('S06', 'Notional exchanges conserve principal',
     'With an initial and a final exchange the notional payments of a schedule sum to zero; with only a final exchange they sum to the initial notional, with only an initial exchange and constant notional to its negative, and with none and constant notional they are all zero. '
     'For a notional per period each period pays the reduction to the next period\'s notional, the initial exchange pays the first notional out on the given date (by default the effective date), and the final exchange returns the last notional.',
     ['inputs', 'configurations'], 'scalar and per-period notionals (amortising, accreting, arbitrary), the four exchange modes, timings, lags and initial exchange dates',
     'No reliable test builds a schedule with notional exchanges or a notional vector.',
     [SCH], [('NotionalSchedule.add_notional_schedule', SCH)], TLC_TRACE, N_INT,
     state=[dict(name='df', meaning='one row per accrual period plus an initial exchange row', where=SCH)], observe=['NotionalSchedule.df', 'CouponSchedule.df'])
prop('S07', 'Schedule tables do not depend on the history of operations on the object',
     'Payment-date, day-count and year-fraction columns can be added to a schedule in any order and any number of times; the latest request for a column alone determines its values, which are those of its own period, and no operation changes the periods, the principal columns or any other column.',
     ['histories'], 'all sequences of column operations on plain, notional and coupon schedules',
     'The guarantee is over call histories; no test calls these operations more than once.',
     [SCH], [('BaseSchedule.add_payment_dates / add_period_daycount / add_period_yearfrac', SCH)], TLC_TRACE, N_INT,
     state=[dict(name='df', meaning='table mutated in place by every operation', where=SCH)], observe=['BaseSchedule.df'])
prop('S08', 'FX exposure date grids cover every trade to its last day of value',
     'A sampled grid runs from the curve date to the last delivery in whole days, weeks or months counted from the curve date, months clipped to their own length, and always contains both ends; a grid made from given dates contains those dates. '
     'If asked for, every delivery adds the last day on which it has value, or the day after it, according to whether a payment still has value on its date. '
     'The dates come in order and once each, nothing else is in the grid, unknown frequencies and deliveries that do not lie after the curve date are refused, and the dates given are left as they were.',
     ['inputs', 'configurations'], 'all curve dates, sets of deliveries in any order and container, the six sampling frequencies or given dates, all settings', 'No test makes a grid.',
     [SCH], [('create_date_grid_for_fx_exposures', SCH)], TLC_BOTH, N_INT, observe=['create_date_grid_for_fx_exposures'])
prop('D01', 'Day counts and year fractions follow their convention exactly',
     'For each of the seven conventions (Actual/360, /365, /366, Actual/Actual, 30/360, 30E/360, 30E/360 ISDA) the number of days and the year fraction between two dates equal the convention\'s definition, including 31sts, end of February and the termination-date rule, leap years and spans over many years. '
     'The value for a pair of dates is the same whether dates are passed singly or in any vector form (one broadcast against many included), except that by default only the last date of a call is the termination date. '
     'Reversed dates are refused.',
     ['inputs'], 'all ordered date pairs, conventions, container types, broadcast shapes and termination flags',
     'The tests check tables of a few hundred pairs for fixed shapes; the rules bite on specific day/month/leap combinations.',
     ['frm/utils/daycount.py'], [('day_count, year_frac, convert_to_same_shape_datetimeindex', 'frm/utils/daycount.py')], TLC_BOTH, N_INT,
     observe=['day_count', 'year_frac'])
prop('T01', 'Tenor spellings map to one meaning, and tenors to the right dates',
     'Every accepted spelling of a tenor (case, spacing, separators, full and abbreviated words, numerals) means the same number of days, weeks, months or years as its canonical form, cleaning is idempotent, and anything that is not a tenor is refused rather than given a meaning. '
     'The date offset of a tenor is that period exactly, with the same offset for all spellings.',
     ['inputs'], 'all market tenors, all unit words, separators and decorations, and arbitrary non-tenor text',
     'Tests list some spellings of some tenors; the parser is a chain of replacements and regular expressions whose interactions depend on the whole text.',
     ['frm/utils/tenor.py'], [('clean_tenor, get_tenor_settlement_date, tenor_to_date_offset', 'frm/utils/tenor.py')], TLC_BOTH, N_INT,
     observe=['clean_tenor', 'tenor_to_date_offset'])
prop('T02', 'FX spot, fixing and delivery dates follow the market rules',
     'A tenor quoted on a curve date has as fixing/expiry date the curve date plus the tenor (rolled to a business day) and delivers the spot lag in business days of the calendar later; given fixing/expiry dates deliver by the same rule and given delivery dates are kept. '
     'Given any of curve date, spot date and spot lag the others are resolved consistently (market lag of the pair by default), and an inconsistent triple is refused. '
     'In a table of quotes each quoted value stays with its own dates, every quote is kept once and rows are in delivery order.',
     ['inputs', 'configurations'], 'all curve dates, lags, currency pairs, tenors, calendars and combinations of given columns (tenor, fixing date, delivery date)',
     'The tests use a fixed curve date and the default calendar; the rules bite around weekends, holidays and month ends.',
     ['frm/utils/tenor.py', 'frm/term_structures/fx_helpers.py'],
     [('resolve_fx_curve_dates, workday, get_fx_spot_day_offset', 'frm/utils/tenor.py'), ('fx_term_structure_helper, fx_forward_curve_helper', 'frm/term_structures/fx_helpers.py')], TLC_BOTH, N_INT,
     observe=['resolve_fx_curve_dates', 'fx_term_structure_helper', 'fx_forward_curve_helper', 'workday'])

ZC = 'frm/term_structures/zero_curve.py'
EU = 'frm/enums/utils.py'
prop('C01', 'A zero curve reprices its quotes and interpolates by its stated method',
     'At every pillar a zero curve returns the quoted discount factor or zero rate, at the curve date it returns discount factor one, and between pillars it is exactly the stated interpolation: linear on the logarithm of the discount factor, or a not-a-knot cubic spline on the logarithm or on the continuously compounded rate. '
     'The discount factor, the zero rate in any compounding frequency and the instantaneous forward rate at one time are all readings of that one function.',
     ['inputs', 'configurations'], 'all curves (pillar sets, order and spacing; levels including negative rates; day count bases; quote forms) and all query dates and times',
     'Tests query a few dates of a few fixed curves; the guarantee concerns every pillar set and every point between, including single-pillar curves and pillars on the curve date.',
     [ZC], [('pillar setup and interpolation', ZC + ':ZeroCurve._process_pillar_df, _setup_daily_df, index_daily_data, get_instantaneous_forward_rate')], TLC_TRACE, N_REAL,
     observe=['ZeroCurve.get_discount_factors', 'ZeroCurve.get_zero_rates', 'ZeroCurve.get_instantaneous_forward_rate'])
prop('C02', 'Zero-curve queries give one answer per date, whatever else is asked',
     'A query with any container of dates or days (scalar, list, series with any index, numpy, unsorted, repeated) returns exactly one value per date in the order asked, and the value for a date does not depend on the other dates of the query, on earlier queries, or on whether it is asked by date or by days. '
     'A date outside the curve gives no value without extrapolation and the value of the nearest curve date under flat extrapolation, without affecting the other answers.',
     ['inputs', 'histories'], 'all query vectors and all sequences of queries on one curve object, in and out of range',
     'The tests query in-range, sorted vectors once.',
     [ZC], [('query assembly and lookups', ZC + ':ZeroCurve.get_discount_factors, get_zero_rates, index_daily_data')], TLC_TRACE, N_REAL,
     state=[dict(name='daily_data', meaning='cached daily curve used to answer date queries', where=ZC)], observe=['ZeroCurve.get_discount_factors', 'ZeroCurve.get_zero_rates'])
prop('C03', 'Equivalent curve inputs build the same curve and are left untouched',
     'The same market data gives the same curve whether pillars are specified by date, days, tenor or years and values by discount factor or by zero rate in any compounding frequency, with the rows in any order. '
     'Tenor pillars fall on the business day on or after the curve date plus the tenor, and the caller\'s data frame is left as it was.',
     ['inputs', 'configurations'], 'all quote forms (4 pillar forms x discount factor or 8 compounding frequencies), row orders, tenor spellings, day count bases and calendars',
     'Tests build curves from one quote form each and never compare the curves.',
     [ZC], [('input normalisation', ZC + ':ZeroCurve._process_pillar_df')], TLC_TRACE, N_REAL, observe=['ZeroCurve.get_discount_factors', 'ZeroCurve.get_zero_rates', 'pillar_df passed in'])
prop('C04', 'Forward rates are consistent with discount factors',
     'The forward rate of a period, in simple, continuous or annual compounding, is the rate which takes the discount factor at the period start to the one at the period end over the period\'s own day-count fraction, so that rolling over consecutive periods discounts like the curve itself. '
     'The simple and weighted averages of daily rates over a period are the averages of exactly the one-day rates of its days (respectively business days).',
     ['inputs'], 'all curves, period vectors (any order, one broadcast against many), compounding kinds and calendars',
     'Tests compare a handful of forward rates against a spreadsheet.',
     [ZC], [('forward rates', ZC + ':ZeroCurve.get_forward_rates')], TLC_TRACE, N_REAL, observe=['ZeroCurve.get_forward_rates'])
prop('C05', 'A parallel shift moves every zero rate by exactly the shift',
     'Shifting a curve by b raises the continuously compounded zero rate at every pillar, and (for interpolation linear in the logarithm of discount factors or on zero rates) at every date, by exactly b, keeps the interpolation method, calendar, basis and extrapolation of the curve, and leaves the original curve unchanged. '
     'Shifts compose by adding up and a shift of zero changes nothing.',
     ['inputs', 'histories'], 'all curves, shifts of either sign and sequences of shifts and queries',
     'No reliable test shifts a curve.',
     [ZC], [('ZeroCurve.flat_shift', ZC)], TLC_TRACE, N_REAL, observe=['ZeroCurve.flat_shift', 'ZeroCurve.get_zero_rates', 'ZeroCurve.get_discount_factors'])
prop('E01', 'Market-convention words have one meaning and unknown words are refused',
     'Every accepted spelling of a market convention (day count basis, frequency, roll convention, roll day, stub, timing, notional exchange, interpolation, extrapolation, pay/receive, buy/sell, compounding), in any case and spacing, gives its own member with its own attached numbers, and no spelling has two meanings. '
     'A missing value gives the documented default where there is one, and text of another vocabulary or no vocabulary is refused.',
     ['inputs'], 'all members and aliases of the twelve vocabularies, case, spacing and separator decorations, and foreign words',
     'Tests touch a few spellings per vocabulary; every schedule, rate and curve in the system is configured through these words.',
     [EU, 'frm/enums/helper.py'], [('from_value / is_valid', EU), ('clean_enum_value', 'frm/enums/helper.py')],
     'TLA+ vocabulary specification; every spelling it defines is enumerated by TLC and replayed into the code', 'Exhaustive over the spellings the specification lists. Trusts TLC and the replay harness.',
     observe=['from_value', 'is_valid', 'multiplier', 'days_per_year', 'periods_per_year'])
prop('R01', 'Zero rates, discount factors and compounding conversions are consistent',
     'For each compounding frequency the discount factor of a zero rate and the zero rate of that discount factor are inverse to each other for every term, and a rate converted to another frequency discounts identically to the original. '
     'This holds elementwise for scalars, arrays and series.',
     ['inputs'], 'all 64 frequency pairs, terms up to 40 years, rates of both signs, container types (conversions with simple rates over one year)',
     'Round trips must hold at every rate and term; tests check a few values.',
     [EU], [('CompoundingFreq conversions', EU)], TLC_TRACE, N_REAL,
     observe=['CompoundingFreq.calc_discount_factor_from_zero_rate', 'CompoundingFreq.calc_zero_rate_from_discount_factor', 'CompoundingFreq.convert_rate_to'])
prop('B01', 'A business-day calendar is open exactly when all its markets are open',
     'The calendar built for a set of currency or locale keys has as business days exactly the days that are neither in the weekend nor an official holiday of any of the requested markets, whatever the case, order, repetition and number of the keys and whether one key or a list is given; no key at all is the plain Monday to Friday calendar. '
     'Adding a market never opens a closed day, and a key which is not set up is refused.',
     ['inputs', 'configurations'], 'all single keys and random sets of up to four of the supported markets, over windows between 1990 and 2099', 'Tests build a calendar for one or two fixed keys and check single holidays.',
     ['frm/utils/business_day_calendar.py'], [('get_busdaycal', 'frm/utils/business_day_calendar.py')], TLC_BOTH, N_INT, observe=['get_busdaycal', 'numpy.is_busday on the result'])
HF = 'frm/term_structures/historical_swap_index_fixings.py'
SC = 'frm/term_structures/swap_curve.py'
prop('F01', 'Coupons from historical fixings accrue every day at the fixing in force',
     'The coupon rate of an overnight-index period over past fixings is the compounded product (or the weighted average) over each calendar day of the period, from the start day included to the end day excluded, at the latest fixing on or before that day, or the plain average of the fixings published in the period. '
     'It does not depend on the order or labelling of the fixing rows, on the other periods asked or on earlier calls, and a period reaching beyond the available fixings is refused; a term index gives the fixing in force on the day asked.',
     ['inputs', 'histories'], 'all fixing histories (gaps, weekends, row order), period vectors, averaging methods, day count bases and repeated calls',
     'Tests compare one fixing history with a few sums; errors sit at period ends on days without a fixing and in row order.',
     [HF], [('RFRFixings.get_coupon_rates, TermFixings.index_historical_fixings', HF)], TLC_TRACE, N_REAL, observe=['RFRFixings.get_coupon_rates', 'TermFixings.index_historical_fixings'])
prop('F02', 'Swap-curve coupons use fixings before the curve date and forwards after it',
     'A swap curve gives each period the coupon of its own position: past periods from the historical fixings alone, future periods from the zero curve forward rates alone, and a daily compounded period containing the curve date accrues at past fixings up to it and at the forward rate from it. '
     'A term period takes the fixing if it starts before the curve date and the forward rate if it starts on or after it, and no answer depends on which other periods are asked in the same call. A curve and fixings of different day counts are refused as a pair.',
     ['inputs', 'histories'], 'all curves, fixing histories and period vectors mixing past, crossing and future periods in any order (bases with a constant year length)',
     'The branch taken depends on the whole vector asked; tests use vectors of a single kind.',
     [SC, HF, ZC], [('RFRSwapCurve.get_fixings, TermSwapCurve.get_fixings', SC)], TLC_TRACE, N_REAL, observe=['RFRSwapCurve.get_fixings', 'TermSwapCurve.get_fixings', 'get_discount_factors'])
GK = 'frm/pricing_engine/garman_kohlhagen.py'
B76 = 'frm/pricing_engine/black76_bachelier.py'
VU = 'frm/pricing_engine/volatility_generic.py'
prop('G01', 'Garman-Kohlhagen prices satisfy the model and its arbitrage relations',
     'For every row the FX option price equals the Garman-Kohlhagen formula (with the interest-rate parity forward, or the market forward when one is given): call minus put equals the discounted forward minus strike, an expired option is worth its payoff, and the reported intrinsic and time values add up to the price. '
     'The price of a row depends on that row alone, so scalars, vectors and broadcast combinations (several strikes for one expiry included) agree with one another.',
     ['inputs'], 'all spots, strikes, terms from zero, rates of both signs, volatilities, call/put mixes, market forwards and container shapes',
     'Tests price a handful of options; the relations must hold at every moneyness, for every row of every vector shape.',
     [GK], [('garman_kohlhagen_price', GK)], TLC_BOTH, N_REAL, observe=['garman_kohlhagen_price'])
prop('G02', 'Option sensitivities are the derivatives of the option price',
     'Every analytical sensitivity of the Garman-Kohlhagen, Black76 (log-normal shift included) and Bachelier functions equals the derivative of the model price with respect to its own input, theta for one calendar day and vega for one percent (or one basis point) as documented, with all other inputs held fixed. '
     'Every numerical sensitivity equals the central difference of the same price over the documented shift.',
     ['inputs'], 'all deltas, gammas, vegas, thetas and rhos of the three models over prices, strikes, terms, rates and volatilities (numerical theta with a market forward excluded)',
     'A wrong sign, scale or bumped input only shows against an independent derivative over many inputs.',
     [GK, B76], [('garman_kohlhagen_price analytical and numerical greeks', GK), ('black76_price, bachelier_price greeks', B76)], TLC_TRACE, N_REAL,
     observe=['garman_kohlhagen_price', 'black76_price', 'bachelier_price'])
prop('G03', 'A strike solved from a delta has that delta',
     'The strike returned for a spot or forward delta, premium adjusted or not, is one whose option has exactly the quoted delta under that convention; of the two strikes of a premium-adjusted call it is the higher one. '
     'The at-the-money delta-neutral strike makes call and put delta cancel.',
     ['inputs'], 'all deltas, four delta conventions, call/put signs, terms, rates, volatilities and market forwards',
     'The premium-adjusted strike is the root of a non-monotone equation found numerically; tests check one smile.',
     [GK], [('garman_kohlhagen_solve_strike_from_delta', GK)], TLC_TRACE, N_REAL, observe=['garman_kohlhagen_solve_strike_from_delta'])
prop('G04', 'Implied and converted volatilities reprice the option',
     'The volatility implied from a price (Garman-Kohlhagen, Black76, Bachelier; for a single option or the sum of a strip) gives back that price to the solver tolerance, and a price no volatility can attain is never answered with a finite volatility. '
     'Converting between normal, log-normal and shifted log-normal volatilities leaves the option price unchanged, for in-, at- and out-of-the-money strikes.',
     ['inputs'], 'all attainable and unattainable prices, strikes, shifts, annuity factors, strips and conversions (closed-form approximation within one percent below a standard deviation of one half)',
     'Solvers fail or stop early only in regions (wings, low volatility, short terms) that a few sampled options do not reach.',
     [GK, B76], [('garman_kohlhagen_solve_implied_vol', GK), ('black76_solve_implied_vol, bachelier_solve_implied_vol, conversions', B76)], TLC_TRACE, N_REAL,
     observe=['garman_kohlhagen_solve_implied_vol', 'black76_solve_implied_vol', 'bachelier_solve_implied_vol', 'shift_black76_vol', 'normal_vol_to_black76_sln'])
prop('G05', 'Black76 and Bachelier prices satisfy the model and its arbitrage relations',
     'For every row the price equals the annuity factor times the undiscounted model value of the (shifted) forward: call minus put equals annuity times forward minus strike, an expired option is worth its payoff, and intrinsic and time value add up to the price. '
     'Each row depends on its own inputs alone, whatever the mix of scalars and vectors.',
     ['inputs'], 'all forwards and strikes (negative ones under a shift or the normal model), terms from zero, volatilities, annuities and container shapes',
     'Tests check a few prices without annuity factor or expiry.',
     [B76], [('black76_price, bachelier_price', B76)], TLC_BOTH, N_REAL, observe=['black76_price', 'bachelier_price'])
prop('V01', 'Forward volatility splits total variance additively',
     'The forward volatility between two times is the one for which variance to the first time plus forward variance adds up to the variance to the second, elementwise; reversed times and a falling total variance are refused, and between equal times it is undefined. '
     'Flat forward interpolation is linear in total variance between the neighbouring expiries, reproduces the given volatilities at the expiries, and holds the boundary volatility outside them.',
     ['inputs'], 'all time pairs, volatilities, vector shapes and expiry grids', 'Additivity must hold over every pair and grid; tests check single values.',
     [VU], [('forward_volatility, flat_forward_interp', VU)], TLC_TRACE, N_REAL, observe=['forward_volatility', 'flat_forward_interp'])
MCG = 'frm/pricing_engine/monte_carlo_generic.py'
GBM = 'frm/pricing_engine/geometric_brownian_motion.py'
HES = 'frm/pricing_engine/heston.py'
CS1 = 'frm/pricing_engine/clewlow_strickland_1_factor.py'
prop('M01', 'Random draws are seeded, independent, antithetic and correlated as asked',
     'The generator gives one standard normal draw per step, variable and simulation: the same seed gives the same draws, another seed gives others, draws which are not antithetic partners are distinct and uncorrelated, antithetic neighbours mirror one another exactly (an odd last simulation has no partner), and an impossible request is refused. '
     'Correlated variates made from independent draws have exactly the requested correlation matrix.',
     ['inputs', 'configurations'], 'all step, variable and simulation counts, seeds, antithetic settings and positive definite correlation matrices (statistical clauses at six standard deviations)',
     'Tests check shapes for even counts; correlation and mirroring go wrong only for odd counts or non-symmetric use of the factor.',
     [MCG], [('generate_rand_nbs, normal_corr', MCG)], TLC_BOTH, N_REAL, observe=['generate_rand_nbs', 'normal_corr'])
prop('M02', 'Simulated geometric Brownian motion follows its law step by step',
     'Every path starts at the initial price and each step multiplies the price by exp((drift - vol^2/2) dt + vol sqrt(dt) shock) with the drift, volatility and shock of that step and of that underlying. '
     'No path or underlying depends on the others simulated in the same call.',
     ['inputs', 'histories'], 'all numbers of underlyings, steps and simulations, drift and volatility term structures, zero volatility included',
     'Tests compare terminal averages of a single underlying, which cannot see parameters assigned to the wrong step or underlying.',
     [GBM], [('simulate_gbm_path', GBM)], TLC_BOTH, N_REAL, observe=['simulate_gbm_path'])
prop('M03', 'Heston paths follow the chosen discretisation step by step',
     'Every Heston path starts at the initial spot and variance and each step is the transition of the chosen scheme for the given shocks: moment-matched quadratic-exponential variance (never negative) with the central log-spot update, or an Euler step with correlated shocks absorbing or reflecting a negative variance. '
     'The vectorised and the scalar simulation give the same paths, whichever other simulations run alongside.',
     ['inputs', 'histories'], 'all parameters (Feller condition met or not), terms, step counts, shocks and both implementations',
     'Tests compare prices with a loose tolerance, which a wrong branch of the scheme can pass.',
     [HES], [('heston_simulate', HES)], TLC_BOTH, N_REAL, observe=['heston_simulate', 'heston_simulate_scalar'])
prop('M04', 'Clewlow-Strickland paths revert to the forward curve with the given speed',
     'Simulated spot prices start on the forward curve, coincide with it at zero volatility, and on every day the shock implied by the path under the one-factor dynamics is a standard normal draw that does not depend on the model parameters. '
     'No two simulations are the same, also when they are generated in several batches.',
     ['inputs', 'histories'], 'all forward curves, horizons, segments per day, reversion speeds, volatilities, simulation counts and batch sizes',
     'Tests check averages of large simulations in a single batch.',
     [CS1], [('clewlow_strickland_1_factor_simulate', CS1)], TLC_BOTH, N_REAL, observe=['clewlow_strickland_1_factor_simulate'])
BH = 'frm/term_structures/bootstrap_helpers.py'
prop('K01', 'Bootstrapped discount factors reprice every deposit and future',
     'Bootstrapping the short end gives discount factors with which each quote is worth par: start over maturity discount factor equals one plus rate (futures rate less convexity for futures) times the accrual fraction, with discount factor one on the curve date, deposits chained on the maturities of earlier deposits, and futures starting at the log-linear interpolation (extrapolation beyond the ends) of the points known before. '
     'The row order and labels of the quotes do not matter, overnight quotes start on the curve date and the other tenors on the settlement date, and a deposit starting where no discount factor is known is refused.',
     ['inputs', 'histories'], 'all quote sets in any row order (distinct maturities, spot and overnight tenors), calendars, settlement lags, negative rates, day count bases and repeated runs',
     'No test covers the bootstrap; repricing must hold for every quote, not for the curve as a whole.',
     [BH], [('cash_rates_quote_helper, bootstrap_cash_rates, bootstrap_futures', BH)], TLC_BOTH, N_REAL, observe=['cash_rates_quote_helper', 'bootstrap_cash_rates', 'bootstrap_futures'])
prop('K02', 'Every bank bill futures contract gets the dates of its own code',
     'Each row of ASX 90-day bank bill futures, given by ticker (one, two or four digit year) or month and year, gets settlement on the second Friday of its own delivery month, expiry on the business day before, an accrual period from settlement to three months later rolled to a Sydney business day, and the futures rate of its own price. '
     'The order, repetition, case and padding of the rows do not matter, and a code that is not such a contract is refused.',
     ['inputs'], 'all delivery months of 2001 to 2060, code spellings and row orders', 'No test covers the contract dates.',
     [BH], [('futures_helper_asx_90day', BH)], TLC_BOTH, N_INT, observe=['futures_helper_asx_90day'])
FXH, FXS = 'frm/term_structures/fx_helpers.py', 'frm/term_structures/fx_volatility_surface.py'
prop('X01', 'FX volatility quotes become one smile in the order of strikes',
     'Volatility quotes named in any accepted spelling (call, put, risk reversal, butterfly of a delta, delta-neutral at the money, forward at the money) get their canonical column names and other columns keep theirs; risk reversals and butterflies become call and put volatilities (at the money plus butterfly plus or minus half the risk reversal) of their own delta and row, calls and puts quoted directly win, and the smile lists puts by rising delta, at the money, calls by falling delta with matching flags and signed deltas. '
     'Strategies without their partner or without at the money volatility are refused, and the quotes of the caller are left as they were.',
     ['inputs', 'configurations'], 'all spellings, delta sets from 1 to 49, mixtures of strategies and direct quotes, column orders and further columns',
     'The tests name their columns canonically in one order.',
     [FXH], [('clean_vol_quotes_column_names, solve_call_put_quotes_from_strategy_quotes, get_delta_smile_quote_details', FXH)], TLC_BOTH, N_REAL,
     observe=['clean_vol_quotes_column_names', 'solve_call_put_quotes_from_strategy_quotes', 'get_delta_smile_quote_details'])
prop('X02', 'Forward FX rates are linear in time between the quoted dates',
     'The forward rate of every requested date (repeated or in any order, as a series or index) is the quoted rate on a quoted date and linear in calendar days between the neighbouring quoted dates. '
     'Dates beyond the quotes get the nearest quoted rate, or no rate when flat extrapolation is switched off; rows may come in any order and the caller\'s curve is left as it was.',
     ['inputs'], 'all sets of distinct quoted dates in any row order, all query sets inside and outside', 'Tests read the forward curve at a few dates inside.',
     [FXH], [('interp_fx_forward_curve_df', FXH)], TLC_BOTH, N_REAL, observe=['interp_fx_forward_curve_df'])
prop('X03', 'Every day of an FX volatility surface carries its own market data',
     'A surface resolves curve date, spot lag, spot date and calendar by the conventions of its pair, and gives every calendar day from its first to its last expiry one smile: years to expiry, forward and zero rates of that day, and for each delta the pillar volatility on a pillar and flat forward variance between the neighbouring pillars, whatever the row order of the quotes. '
     'The strike of each pillar quote has the quoted delta under the convention of its own pillar at its own volatility, and the caller\'s frames are left as they were.',
     ['inputs', 'configurations'], 'all pairs, calendars, given/derived curve dates, tenor or date quotes in any order, delta sets and conventions, zero curves of every kind, with rising total variance',
     'Tests build a handful of surfaces from one data file, with one delta convention and sorted tenors.',
     [FXS, FXH], [('_setup_vol_smile_pillar_df, _setup_vol_smile_daily_df, _setup_strike_pillar', FXS)], TLC_BOTH, N_REAL, observe=['FXVolatilitySurface.vol_smile_pillar_df', 'FXVolatilitySurface.vol_smile_daily_df', 'FXVolatilitySurface.strike_pillar_df'])
prop('X04', 'FX surface queries answer from their own expiry, strike and type',
     'Every query row for an expiry of a spline surface gets the volatility of the spline (parabola through three quotes, not-a-knot cubic through more) through that expiry\'s strikes and volatilities at its own strike, and every priced row the Garman-Kohlhagen value of its own type at that volatility, forward and zero rates. '
     'Answers do not depend on what was asked before, the order of rows or repetitions, and an expiry outside the quoted expiries is refused.',
     ['histories', 'inputs'], 'all histories of volatility and price queries on pillars and between, both spline smiles, repeated and unsorted expiries',
     'Cached smiles and row alignment only go wrong for repeated or unsorted queries, which tests do not make.',
     [FXS], [('_solve_vol_daily_smile_func, interp_vol_surface, price_vanilla_european', FXS)], TLC_BOTH, N_REAL, observe=['FXVolatilitySurface.interp_vol_surface', 'FXVolatilitySurface.price_vanilla_european'])
prop('X05', 'FX pairs and delta conventions are told apart by the market convention',
     'A currency pair in any spelling is split into foreign and domestic currency, with a warning exactly when the market quotes it the other way round (US dollars are domestic against AUD, EUR, GBP and NZD and foreign otherwise). '
     'A volatility quote is remarked as off the market convention exactly when premium adjusted for AUDUSD, EURUSD, GBPUSD or NZDUSD, or regular for a US dollar pair outside those currencies, row by row.',
     ['inputs'], 'all pairs of eleven currencies, mixtures of conventions over rows', 'No test reads the warnings.',
     [FXH], [('validate_ccy_pair, check_delta_convention', FXH)], TLC_BOTH, N_INT, observe=['validate_ccy_pair', 'check_delta_convention'])
prop('X06', 'Simulated FX rates of a surface keep its forwards and volatilities',
     'simulate_gbm_fx_rate_path gives one rate per simulation for the spot date and every distinct requested delivery date in order, fixed the spot lag of business days before (non-business deliveries rolled preceding, no earlier than the curve date): every path starts at the spot rate, and each step between fixings is independent and lognormal, '
     'such that the rate of every date has the forward rate of its fixing date as mean and the at-the-money volatility of that day\'s smile as dispersion (its total variance), while dates with one fixing share one rate. Simulations mirror their neighbour exactly if antithetic variates are asked for. Deliveries before spot or fixing outside the quoted expiries are refused.',
     ['inputs', 'configurations'], 'all surfaces with rising total variance, delivery grids in any order with repetitions and non-business days, with and without antithetic variates (whose mean log return is then exact)',
     'No test calls the method, which raised for every input before it was repaired.',
     [FXS, 'frm/pricing_engine/geometric_brownian_motion.py', 'frm/pricing_engine/monte_carlo_generic.py'], [('simulate_gbm_fx_rate_path', FXS)], TLC_BOTH, N_REAL + ' The law of a step is read off its mean (exact with antithetic variates), variance and correlation with its neighbour over 3000-6000 simulations, so an error of the variance below about 15% that leaves the mean alone is not seen.', observe=['FXVolatilitySurface.simulate_gbm_fx_rate_path'])
COS = 'frm/pricing_engine/cosine_method_generic.py'
prop('N01', 'Five Heston pricing methods give the one Heston price',
     'For every option, market and admissible parameters (moments 1.8 and -0.8 of the spot finite), the 1993 formula, Carr-Madan quadrature, Carr-Madan FFT, cosine series and Lewis-Lipton formula all return the European value of the Heston model, each to its own accuracy (the FFT to the interpolation error of its strike grid), calls and puts alike, alone or in arrays of strikes. '
     'A market price of volatility risk shifts mean reversion and long-run variance as in the risk-adjusted model.',
     ['inputs', 'configurations'], 'short to long expiries, Feller ratio from 0.3 on, correlations of either sign, strikes within two deviations, arrays mixing calls and puts',
     'Tests compare a few published prices at one parameter set, to a tolerance which hides swapped arguments and branch errors of the complex logarithm.',
     [HES, COS], [('heston_price_vanilla_european and its methods', HES), ('get_cos_truncation_range', COS)], TLC_BOTH, N_REAL, observe=['heston_price_vanilla_european', 'heston_cosine_price_vanilla_european'])
prop('N02', 'Heston calibration fits the smile it was given',
     'A calibration returns admissible parameters (initial variance the at the money variance, correlation within one, no negative variance), the volatilities its own model gives at the strikes having the quoted deltas, and the sum of squared errors of those volatilities, which is no worse than a flat smile at the money. '
     'This holds for all methods but the FFT, whose fit is not claimed, under every delta convention, and the quotes are left as they were.',
     ['inputs', 'configurations'], 'smiles of three to seven quotes, tilts of either sign, all methods and delta conventions, expiries of weeks to years',
     'Tests calibrate one smile and check parameters to a few digits.',
     [HES], [('heston_calibrate_vanilla_smile', HES)], TLC_BOTH, N_REAL, observe=['heston_calibrate_vanilla_smile'])
prop('N03', 'Heston smiles of an FX surface answer from the model fitted to their day',
     'A surface with Heston smiles answers every query with the volatility of the model fitted to the volatilities of that day at its own strike, zero rates and forward, and prices with that volatility, whatever was asked before. '
     'A fit with a sum of squared errors of 0.001 or more is refused, as is an expiry outside the quoted expiries.',
     ['histories', 'inputs'], 'histories of volatility and price queries on all five Heston methods, pairs, calendars and curves as for the spline surfaces',
     'No test asks a Heston surface twice, nor off a pillar.',
     [FXS, HES], [('_solve_vol_daily_smile_func, interp_vol_surface', FXS)], TLC_BOTH, N_REAL, observe=['FXVolatilitySurface.interp_vol_surface', 'FXVolatilitySurface.price_vanilla_european'])
prop('N04', 'A law is recovered from its characteristic function by cosine series',
     'For a characteristic function whose mass lies within the range, the series returns density and distribution on points from end to end no more than a step apart, the asked point among them, total mass one, and the distribution at the point; a point outside the range or a step which does not fit is refused. '
     'Truncation ranges lie around the mean of the log spot with a half width of the given number of its standard deviations, for geometric Brownian motion and the Heston model.',
     ['inputs'], 'mixtures of two normals of any scale, points on and off the grid, Heston parameters of every regime',
     'No test calls the function; the truncation range shows only in prices of strongly mean reverting or very volatile variance.',
     [COS], [('cos_method, get_cos_truncation_range', COS)], TLC_BOTH, N_REAL, observe=['cos_method', 'get_cos_truncation_range'])
SAB = 'frm/pricing_engine/sabr.py'
prop('A01', 'SABR volatilities follow the expansion at every strike, money included',
     'The log-normal volatility of a SABR smile is the Hagan expansion for every strike, shift and admissible parameters, continuous through the strike at the money, the same for one strike as for it in an array, and for many smiles the volatility of each smile at its own strike.',
     ['inputs'], 'forwards of either sign under a shift, elasticities from 0 to 1, correlations up to 0.95, expiries up to 20 years, strikes at and arbitrarily near the money, arrays of strikes and smiles',
     'Tests compare one published smile; the branch at the money, broadcasting and shifts are not met.',
     [SAB], [('calc_sln_vol_for_strike_from_sabr_params', SAB)], TLC_BOTH, N_REAL, observe=['calc_sln_vol_for_strike_from_sabr_params'])
prop('A02', 'SABR fits pass through the money and are admissible',
     'The level solved for a volatility at the money gives exactly that volatility, and is the smallest positive such level. '
     'A fitted smile has admissible parameters (the given elasticity where one is given), passes through the volatility at the money, reports the sum of squared errors of its own volatilities, is no worse than the start of the search and finds a SABR smile of up to two years again; quotes without exactly one volatility at the money are refused.',
     ['inputs'], 'smiles of 4 to 10 strikes, exact and noisy (which may be refused), shifts, elasticities given and free, expiries up to five years',
     'Tests fit one smile; the search meets bounds and levels without real root only on others.',
     [SAB], [('solve_alpha_from_sln_vol, fit_sabr_params_to_sln_smile', SAB)], TLC_BOTH, N_REAL, observe=['solve_alpha_from_sln_vol', 'fit_sabr_params_to_sln_smile'])
HW = 'frm/pricing_engine/hw1f.py'
HWQ = 'curves of 4 to 8 pillars in all quote forms and both spline interpolations, mean reversions from none to strong, volatilities from none up, '
prop('H01', 'Hull-White bond options and caplets have the value of the model',
     'Every option on a zero-coupon bond has the discounted expectation of its payoff under the Hull-White model of the curve as its value, row by row of arrays of expiries, maturities, strikes and types; without variance it is the discounted intrinsic value, and nothing if the bond matures before the expiry. '
     'A caplet or floorlet is worth the bond options it is made of.',
     ['inputs', 'configurations'], HWQ + 'expiries from today to 90% of the curve', 'No test prices an option on more than one row, nor without mean reversion or variance.',
     [HW], [('price_zero_coupon_bond_option, price_optionlet, calc_b, calc_variance', HW)], TLC_BOTH, N_REAL, observe=['HullWhite1Factor.price_zero_coupon_bond_option', 'HullWhite1Factor.price_optionlet'])
prop('H02', 'Hull-White swaptions decompose into bond options',
     'A swaption is worth the expectation of the positive part of its swap under the model, whatever the number of coupons, their fractions of a year, and whether the notional is paid with the last coupon; payer less receiver is the swap and a swaption of one period is a caplet. '
     'The strikes of the decomposition are the bond prices at the one rate at which the fixed flows are worth par, and coupons out of order or without a fraction are refused.',
     ['inputs'], HWQ + '1 to 6 coupons, rates of either sign', 'No test prices a swaption.',
     [HW], [('price_swaption, jamshidian_decomposition', HW)], TLC_BOTH, N_REAL, observe=['HullWhite1Factor.price_swaption', 'HullWhite1Factor.jamshidian_decomposition'])
prop('H03', 'The Hull-White model fits its curve',
     'The model starts at the short rate of the curve, theta is the slope of the forward rate plus the mean reversion and variance terms at every time, and bonds of today have the price of the curve while later bonds have the affine price of the short rate at their time, by integration of theta and by the curve alike. '
     'The theta fit gives the pillars back and keeps the best grid tried.',
     ['inputs', 'histories'], HWQ + 'all pairs of times, histories of searches for a grid and queries', 'Tests look at the pillars of one curve.',
     [HW], [('setup_theta, get_thetas, calc_discount_factor_by_solving_ode_1, calc_discount_factor_by_solving_ode_2, fit_theta', HW)], TLC_BOTH, N_REAL,
     observe=['HullWhite1Factor.r0', 'HullWhite1Factor.get_thetas', 'HullWhite1Factor.calc_discount_factor_by_solving_ode_1', 'HullWhite1Factor.calc_discount_factor_by_solving_ode_2', 'HullWhite1Factor.fit_theta'])
prop('H04', 'Simulated Hull-White rates follow the model step by step',
     'Every simulated path starts at the short rate of the curve and every step follows the Euler, Runge-Kutta or exact scheme with the theta of its time and its own shock; discount factors accumulate the rates of the path by the trapezium rule, zero rates are those of the discount factors and averages those over all simulations. '
     'An unknown method is refused.',
     ['inputs', 'histories'], HWQ + '1 to 12 steps, 1 to 5 simulations with and without mirrored shocks', 'Tests look at averages of many paths, which a wrong step or theta moves less than noise.',
     [HW], [('simulate', HW)], TLC_BOTH, N_REAL, observe=['HullWhite1Factor.simulate'])

LEG = 'frm/instruments/leg.py'
SWP = 'frm/instruments/swap.py'
LGQ = 'fixed and zero coupon legs of up to 24 periods on every kind of schedule, side, day count and exchange of notionals, one rate or a rate per period, value dates before, within and after the leg on and around its dates, both settings of payments on the value date, histories of valuations, solves and changes of the value date on the same legs, swaps with shared or own schedules; '
prop('L01', 'Legs and swaps are worth their discounted payments',
     'Fixed and zero coupon legs pay the notional of each period times the rate earned over it under the day count and compounding of the leg, with the notional exchanges and the sign of the paid or received side, and are worth those payments still due on the value date times the discount factor of their payment date; a payment beyond the curve makes the value not a number. '
     'A swap is worth the sum of its two legs, which must be on opposite sides, and the schedule given by the caller and the contractual rates are left as they were.',
     ['inputs', 'histories'], LGQ + 'curves of every interpolation, shorter and longer than the leg', 'Tests only construct legs; values depend on side, date boundaries and what was asked before.',
     [LEG, SWP], [('Leg.calc_dirty_pv, _discount_payments, calc_coupon_payment of FixedLeg and ZerocouponLeg', LEG), ('Swap.calc_dirty_pv', SWP)], TLC_BOTH, N_REAL,
     observe=['FixedLeg.calc_dirty_pv', 'ZerocouponLeg.calc_dirty_pv', 'Swap.calc_dirty_pv', 'Leg.schedule.df'])
prop('L02', 'Accrued interest is what the value date has earned and not settled',
     'The accrued interest of a fixed or zero coupon leg is the interest of the period the value date lies in, from its start to the value date, plus coupons of completed periods whose payment is still due, or, where the setting limits it to the unsettled cashflow, that coupon alone when there is one; nothing accrues before the first or after the last period. '
     'The clean value is the dirty value less accrued interest, for legs and for swaps.',
     ['inputs', 'histories'], LGQ + 'payment delays, both settings of the limit', 'Tests never value a leg; the days that matter are those around period ends and payment dates.',
     [LEG, SWP], [('Leg.calc_accrued_interest, calc_clean_pv, _calc_accrued_interest of FixedLeg and ZerocouponLeg', LEG)], TLC_BOTH, N_REAL,
     observe=['Leg.calc_accrued_interest', 'Leg.calc_clean_pv', 'Swap.calc_accrued_interest', 'Swap.calc_clean_pv'])
prop('L03', 'Current and non-current parts and payment buckets partition a leg',
     'The value of a leg splits into what is paid within a year of the value date and the rest, which together are the dirty value. '
     'Payment buckets hold every coupon and notional payment still due exactly once, in the bucket of years its payment date falls in, undiscounted.',
     ['inputs', 'histories'], LGQ + 'several bucket grids', 'Tests never split a leg; the errors are in payments on a boundary.',
     [LEG], [('Leg.get_current_non_current_split, bucket_payments', LEG)], TLC_BOTH, N_REAL,
     observe=['Leg.get_current_non_current_split', 'Leg.bucket_payments'])
prop('L04', 'Solved rates reprice the leg or swap and leave it as it was',
     'The par rate makes a leg worth its outstanding notional payments and the target rate of a leg or swap makes it worth the target, or the answer is not a number when no rate between -10% and 300% does. '
     'After a solve the leg has its contractual rates, payments and values again.',
     ['inputs', 'histories'], LGQ + 'targets within and out of reach', 'Tests never solve; a wrong value cancels in the solve and state left behind shows only in later valuations.',
     [LEG, SWP], [('Leg.par_solve, target_solve, _solver_helper', LEG), ('Swap.par_solve_each_leg, target_solve_swap', SWP)], TLC_BOTH, N_REAL,
     observe=['Leg.par_solve', 'Leg.target_solve', 'Swap.par_solve_each_leg', 'Swap.target_solve_swap'])

OPT = 'frm/term_structures/optionlet.py'
IRH = 'frm/term_structures/interest_rate_option_helpers.py'
OPQ = 'markets of one to four quotes and up to six strikes on monthly to annual optionlets, any calendar, settlement, day count and curve, in any order and spelling, '
prop('O01', 'Cap and floor quotes are strips of optionlets at the quoted volatility',
     'A quote runs from one period after settlement to its tenor after settlement, and its optionlets are the whole periods back from the longest termination date on business days, each on the simple forward rate of its period and paid at its end. '
     'Its forward is the annuity-weighted one, its strikes lie at the named distances from it, with caps above and floors elsewhere, its price is the sum of its optionlets at the quoted log-normal volatility and its normal volatility gives that price back; quotes are taken in order of termination whatever the order of rows and columns, and the table of the caller is left as it was.',
     ['inputs', 'configurations'], OPQ + 'with displacement', 'No test builds a term structure from quotes; swapped rows, a period too many or a wrong annuity change prices only slightly.',
     [OPT, IRH], [('Optionlet.__post_init__, _solve_vol_n', OPT)], TLC_BOTH, N_REAL,
     observe=['Optionlet.quote_vol_sln', 'Optionlet.quote_strikes', 'Optionlet.quote_cp', 'Optionlet.quote_pxs', 'Optionlet.quote_vol_n', 'Optionlet.term_structure'])
prop('O02', 'Stripped optionlet smiles reprice their quotes',
     'Every optionlet belongs to the first quote that reaches it: those of the first have its normal volatility, those of a later one run linearly in time from the last optionlet before to the one volatility at their end that gives the rest of the price of the quote. '
     'Every smile passes through the volatility at the money with admissible SABR parameters that are flat over the first quote and linear between the ends of the later ones, with beta as given, fitting the prices of all strikes no worse than the start of the fit and closely when such smiles exist; a longer quote changes no smile before it.',
     ['inputs', 'histories'], OPQ + 'with smiles of ordinary size', 'No test strips quotes; the conditions bind every optionlet to all quotes before.',
     [OPT, 'frm/pricing_engine/sabr.py'], [('Optionlet._solve_vol_n_atm, _solve_sabr_params', OPT)], TLC_BOTH, N_REAL, observe=['Optionlet.term_structure'])
prop('O03', 'Optionlets are priced off the stripped surface or a given flat volatility',
     'Between its optionlets the surface is linear in the date, in normal volatility at the money, beta, rho and volatility of volatility, with alpha through the level at the money. '
     'Every period of a schedule is priced at its own strike, direction and volatility (smile, log-normal or normal), discounted to its payment date with value split into intrinsic and time, the flat volatilities give the total price back, malformed strikes and directions are refused, and queries leave the surface as it was.',
     ['inputs', 'histories'], OPQ + 'schedules on and off the optionlets, scalars, lists and arrays of strikes, directions and volatilities', 'No test prices an optionlet off a surface.',
     [OPT], [('Optionlet.interpolate_sabr_term_structure, _price_optionlets', OPT)], TLC_BOTH, N_REAL,
     observe=['Optionlet.interpolate_sabr_term_structure', 'Optionlet.price_optionlets_per_term_structure', 'Optionlet.price_optionlets_per_flat_vol_sln', 'Optionlet.price_optionlets_per_flat_vol_n'])
prop('Q01', 'Names of cap and floor quotes mean their strike or distance from the forward',
     'Every spelling of the quote at the money, of a distance from it and of an absolute strike, in basis points or per cent, signed or not, in either case and with or without spaces, gets the one name of what it means and the number it stands for, exact to a hundredth of a basis point. '
     'Other columns are not taken for quotes, sets without exactly one quote at the money are refused and the names given are left as they were.',
     ['inputs'], 'all spellings the specification generates for some thirty distances and strikes, alone and mixed with each other and with the other columns of a table of quotes', 'Tests try a few spellings.',
     [IRH], [('standardise_atmf_quote_col_names, standardise_relative_quote_col_names, standardise_absolute_quote_col_names', IRH)], TLC_BOTH, N_INT,
     observe=['standardise_relative_quote_col_names', 'standardise_absolute_quote_col_names', 'standardise_atmf_quote_col_names'])
