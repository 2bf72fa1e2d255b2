"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""

SRC = 'src/actuarialmath/'


def P(id, title, statement, text, why, files, mech, over=('inputs',), state=None):
    return dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why,
                files=[SRC + f for f in files], mech=mech, state=state)


PROPS = [
P('C01', 'Interest rate views and conversions agree',
  'Whichever single form a rate is given in (effective, discount, discount factor, force, nominal m-thly rate of interest or discount), '
  'the effective rate, discount rate, discount factor, force and discount function of time are all the same rate, including at a rate of zero. '
  'Conversions to and from m-thly and continuous rates, annuities-certain (due, immediate, m-thly, continuous, perpetual) and the rate with '
  'doubled force follow exactly from that rate; a missing, negative or inconsistent specification is rejected. '
  'A model discounts at the rate last set on it in any form, and at zero until one is set.',
  'every rate in any of the six forms, zero included; every payment frequency; every term, perpetuities included',
  'A test samples a handful of positive rates at one frequency; the identities must hold for every rate, frequency and term, and the zero-rate and continuous limits are separate code branches that the examples never enter.',
  ['interest.py', 'life.py'], [('Interest constructor', 'interest.py Interest.__init__'), ('m-thly conversion', 'interest.py Interest.mthly'),
                    ('annuity certain', 'interest.py Interest.annuity'), ('doubled force', 'interest.py Interest.double_force'), ('rate of a model', 'life.py Life.set_interest')]),
P('C02', 'All forms of a survival model describe one survival curve',
  'Whichever form of mortality is supplied (survival function, density, force of mortality, number of lives, or several of them), survival and '
  'deferred death probabilities, density, force, lives and deaths are all derived from that one survival curve, for every age, selection duration and term. '
  'Curtate and complete expectations and their second moments and variances are the sum or integral of survival probabilities over the term, truncated at the limiting age. '
  'Negative ages, durations and moments other than the documented ones are rejected.',
  'every survival curve in every supplied form; every age, years since selection, term (whole life, to and beyond the limiting age), deferral',
  'Tests fix a few closed-form mortality laws; the derivation of each form from each other form is one branch per combination and must hold for every curve, not for curves where two mistakes cancel.',
  ['survival.py', 'lifetime.py'], [('derivation of missing forms', 'survival.py Survival.set_survival'), ('probabilities', 'survival.py Survival.p_x, q_x, f_x, mu_x, l_x, d_x'),
                                   ('expectations', 'lifetime.py Lifetime.e_x')]),
P('C03', 'Fractional ages interpolate the survival curve consistently',
  'At fractional ages, lives, survival, deferred death, density, force, expectation and pure endowment are those of the survival curve interpolated between '
  'integer ages either linearly (uniform deaths, the default) or exponentially (constant force), for every start, term and deferral, whether or not they cross integer ages. '
  'Every model class interpolates by the rule it was constructed with. Negative fractional ages and durations are rejected, and the complete/curtate approximations differ by one half (variance one twelfth).',
  'every integer-age survival curve; every real age, term and deferral; both interpolation rules',
  'Tests evaluate single points; a fractional term that crosses several integer ages, starts mid-year or ends mid-year is a different case of the same formula and only exhaustive case analysis covers them.',
  ['fractional.py'], [('interpolated lives', 'fractional.py Fractional.l_r'), ('probabilities', 'fractional.py Fractional.p_r, q_r, f_r, mu_r'), ('expectation', 'fractional.py Fractional.e_r, E_r')]),
P('C04', 'Insurance values are expected present values of their benefits',
  'Every insurance value (pure endowment, whole life, term, deferred, endowment, increasing, decreasing and general benefit; payable at the end of the year or the moment of death; first and second moment) '
  'equals the sum or integral over the insured years of the discounted benefit times the probability of death, plus the survival benefit. '
  'Terms are cut at the limiting age, a negative term means whole life, years since selection and deferral are honoured, and this holds for every mortality and every interest rate including zero.',
  'every survival curve, interest rate (zero included), age, years since selection, term, deferral, benefit amount or function, endowment amount, moment',
  'Tests evaluate one product at one age under one law, mostly with unit benefits and no selection; a dropped deferral, benefit power or truncation is invisible there and shows only for other argument combinations.',
  ['insurance.py'], [('general expected present value', 'insurance.py Insurance.A_x'), ('pure endowment', 'insurance.py Insurance.E_x'),
                     ('products', 'insurance.py Insurance.whole_life_insurance, term_insurance, deferred_insurance, endowment_insurance, increasing_insurance, decreasing_insurance')]),
P('C05', 'Annuity values are expected present values of their payments',
  'Every life annuity value (whole life, temporary, deferred, certain and life, immediate, increasing, decreasing and general benefit; discrete or continuous) equals the sum or integral '
  'of discounted payments times survival, cut at the limiting age, for every mortality, selection duration, deferral, benefit amount and interest rate including zero. '
  'An annuity and its twin insurance convert into each other exactly.',
  'every survival curve, interest rate (zero included), age, years since selection, term, deferral, benefit amount or function',
  'Tests use unit payments at a few ages; benefit scaling, selection, deferral and the zero-interest branch are argument combinations that the examples do not reach.',
  ['annuity.py'], [('general expected present value', 'annuity.py Annuity.a_x'), ('products', 'annuity.py Annuity.whole_life_annuity, temporary_annuity, deferred_annuity, certain_life_annuity, immediate_annuity, increasing_annuity, decreasing_annuity'),
                   ('twins', 'annuity.py Annuity.annuity_twin, insurance_twin')]),
P('C06', 'Variances of insurances and annuities are second moment less squared mean',
  'A variance requested of a pure endowment, whole life, term, deferred or endowment insurance, or of a whole life, temporary or immediate annuity, equals the second moment less the square of the first '
  'moment of the present value of exactly that benefit, scaled by the square of the benefit amount. This holds for every mortality, interest rate, selection duration, term and discrete or continuous payment.',
  'every survival curve, interest rate, age, years since selection, term, deferral, benefit and endowment amount',
  'Variance is a separate branch of every method; tests call it for few products with unit benefit, where squaring the benefit twice or not at all looks the same.',
  ['insurance.py', 'annuity.py'], [('variance', 'insurance.py Insurance.insurance_variance'), ('variance', 'annuity.py Annuity.annuity_variance')]),
P('C07', 'Present value random variables and loss at issue are consistent',
  'The present value of a whole life insurance or annuity as a function of the time of death, its inverse, its percentiles and its density are mutually consistent and discounted at the model\'s own rate. '
  'The loss at issue of a policy as a function of the time of death equals discounted claims (or, after surviving the term, the endowment) plus initial costs less the accumulated premium profit over the years survived, '
  'and its percentile is the loss at the corresponding time of death.',
  'every time of death (integer or not), probability, present value, contract and interest rate, zero included',
  'Tests invert a value or two under a closed-form law; the round trips and the loss after the policy term must hold at every time of death.',
  ['insurance.py', 'annuity.py', 'policyvalues.py'], [('insurance present value', 'insurance.py Insurance.Z_from_t, Z_to_t, Z_t, Z_x'), ('annuity present value', 'annuity.py Annuity.Y_from_t, Y_to_t, Y_t, Y_x'),
                                                     ('loss', 'policyvalues.py PolicyValues.L_from_t, L_from_prob')]),
P('C08', 'Premiums satisfy the equivalence principle',
  'A net premium times the value of the premium annuity (less any returned premium) equals the value of the insured benefits plus initial cost, for whole life, term, endowment, deferred, limited-payment, return-of-premium and deferred-annuity products, discrete or continuous. '
  'A gross premium times premium income equals benefits, settlement, policy and premium expenses, and the shortcuts between premium, insurance and annuity values invert each other.',
  'every survival curve, interest rate, age, term, deferral, payment period, benefit, expense level; either or both of insurance and annuity values given',
  'Tests solve a few textbook products; each combination of product options takes a different path through the premium code and must balance for all values.',
  ['premiums.py'], [('net premium', 'premiums.py Premiums.net_premium'), ('gross premium', 'premiums.py Premiums.gross_premium'),
                    ('equivalences', 'premiums.py Premiums.premium_equivalence, insurance_equivalence, annuity_equivalence')]),
P('C09', 'Policy values equal expected future outgo less income',
  'Net and gross policy values and variances at any duration equal expected future benefits and expenses less expected future premiums of the remaining contract, using initial expenses only at issue, for whole life, endowment and term policies. '
  'A contract stores exactly the terms it is given, its derived costs and profits follow from them, and its renewal version keeps every term but replaces initial by renewal expenses and shortens the remaining term, without changing the original.',
  'every survival curve, interest rate, age, duration, term, endowment amount and contract terms',
  'Tests check a few policies at one duration; the formulas must balance for every contract and duration, including terms cut by the limiting age.',
  ['policyvalues.py'], [('net policy value', 'policyvalues.py PolicyValues.net_policy_value, net_future_loss'), ('gross policy value', 'policyvalues.py PolicyValues.gross_policy_value, gross_future_loss'),
                        ('variances', 'policyvalues.py PolicyValues.net_policy_variance, gross_policy_variance'), ('contract', 'policyvalues.py Contract')]),
P('C10', 'Reserves satisfy the one-period balance',
  'The reserve at the end of a year obtained forwards, backwards, at a fractional duration or by filling the whole table satisfies: reserve plus premium less expenses, with interest, pays the death benefit (plus the reserve, if promised) of those who die and the next reserve of the survivors. '
  'Reserves given are stored as given, with zero at issue and the endowment (zero by default) at the end of the term. A known reserve is returned unchanged, an undetermined one is reported as absent, and full preliminary term premiums and values equal net premiums and policy values of the policy one year older.',
  'every survival curve, interest rate, benefit function, premium, expenses, known reserves, duration within the year, with or without reserve paid on death',
  'Tests step one recursion on one table; the balance must hold for every benefit and expense, with zero reserves and zero benefits, and at every table entry.',
  ['reserves.py'], [('recursions', 'reserves.py Reserves.t_V_forward, t_V_backward, t_V'), ('fractional', 'reserves.py Reserves.r_V_forward, r_V_backward'),
                    ('table', 'reserves.py Reserves.fill_reserves, set_reserves'), ('full preliminary term', 'reserves.py Reserves.FPT_premium, FPT_policy_value')]),
P('C11', 'A life table is one consistent table however it is filled and read',
  'From any sufficient set of lives, deaths, mortality and survival rates, every filled cell of a life table satisfies l[x+1] = l[x](1 - q[x]), d[x] = l[x] q[x] and p[x] = 1 - q[x]; given cells and the '
  'caller\'s data are unchanged and the age range covers the data. Lives, deaths, survival and deferred death probabilities, force, expectations (limited or not) and pure endowments read from the table are those of that one table, '
  'with nobody alive beyond its limiting age, and its functions at fractional ages interpolate it.',
  'every table contents and radix; every combination of supplied columns enumerated; every age, duration, term and deferral inside, at and beyond the end of the table',
  'Tests fill a few textbook tables from one kind of column and read single cells; each other order of inference between columns and each read past the end of the table is a separate path.',
  ['lifetable.py'], [('filling', 'lifetable.py LifeTable.set_table, fill_table'), ('lookups', 'lifetable.py LifeTable.l_x, d_x, p_x, q_x, mu_x, e_x, E_x'), ('fractional ages', 'lifetable.py LifeTable.__init__')]),
P('C12', 'A select table is one consistent table however it is filled and read',
  'From any sufficient set of lives, deaths, mortality rates, expectations, insurance or annuity values by selection age and duration, every filled cell of a select table satisfies the one-year relations between lives, '
  'deaths and rates and the one-year recursions of expectation, insurance and annuity values, where after the select period the next cell is the ultimate cell one year older; the age range covers the data. '
  'Lives, deaths, survival and deferred death probabilities, pure endowments, expectations (limited or not) and discrete insurance and annuity values read from the table use select rates within the select period and attained-age rates after it, '
  'and a tabulated whole life value is used only for an immediate whole life benefit, scaled by its amount.',
  'every table contents, radix and interest rate; select periods 0 to 3 enumerated; every selection age, duration within and beyond the select period, term and deferral',
  'Tests fill a few textbook fragments; the boundary between select and ultimate rates is crossed at a different point for each duration and term, and each inference between columns is its own path.',
  ['selectlife.py'], [('filling', 'selectlife.py SelectLife.set_table, set_select, fill_table'), ('lookups', 'selectlife.py SelectLife.l_x, d_x, p_x, q_x, e_x, A_x, a_x'),
                      ('limiting age', 'selectlife.py SelectLife.max_term')]),
P('C13', 'Mortality laws and their shortcuts follow their own survival curve',
  'The survival function, force, density and lives installed by the beta, uniform, Makeham and Gompertz laws are the ones of the named law, mutually consistent, with its limiting age; invalid parameters and fractional-age assumptions are rejected. '
  'Functions at fractional ages under a mortality law are those of the law itself. Complete and curtate expectations (limited or not, means, second moments and variances) under the beta and uniform laws, and pure endowments, '
  'whole life and term insurances under the uniform law (moments, variance, benefit, discrete or continuous, zero interest included), equal the sums and integrals of the law\'s own survival curve.',
  'every parameter of the law, age, years since selection (integer or fractional), term inside, at and beyond the limiting age, interest rate and benefit',
  'Tests evaluate a few whole life values from issue; the shortcuts for other durations, limits, moments and zero interest are separate closed forms that must agree with the curve for every value.',
  ['mortalitylaws.py'], [('laws', 'mortalitylaws.py Beta.__init__, Uniform.__init__, Makeham.__init__, Gompertz.__init__'), ('fractional ages', 'mortalitylaws.py MortalityLaws.l_r, p_r, q_r, mu_r, f_r, e_r'),
                         ('shortcuts', 'mortalitylaws.py Beta.e_r, e_x; Uniform.e_x, E_x, whole_life_insurance, term_insurance')]),
P('C14', 'Constant force shortcuts equal the sums and integrals they replace',
  'Under a constant force of mortality the survival function, force and density, expectations (complete or curtate, limited or not, variances), pure endowments, whole life and term insurances and whole life and temporary annuities '
  '(moments, variance, benefit, discrete or continuous, zero interest included) equal the sums and integrals of exp(-mu t), and percentiles of present value correspond to the lifetime percentile.',
  'every force of mortality and of interest, age, years since selection, term, benefit and probability',
  'Tests check single values; each closed form must equal the general sum or integral for all rates, terms and benefits, including branches for moments, variance and zero interest.',
  ['constantforce.py'], [('law', 'constantforce.py ConstantForce.__init__'), ('shortcuts', 'constantforce.py ConstantForce.e_x, E_x, whole_life_insurance, term_insurance, whole_life_annuity, temporary_annuity'),
                         ('percentiles', 'constantforce.py ConstantForce.Z_t, Y_t')]),
P('C15', 'Recursion answers only what follows from the given facts',
  'Every answer the recursion solver gives (survival, mortality with deferral, expectation of life, pure endowment, increasing and decreasing insurance, whole life, term, deferred and endowment insurance, '
  'whole life, temporary and deferred annuity; moments, variances, benefit amounts, discrete or continuous) is either nothing or the exact value of that contract in the attained-age model the given facts come from: '
  'each rule it applies is an identity valid for every mortality and every positive interest rate.',
  'every set of facts consistent with one survival curve, positive interest rate, age, duration, term, deferral, benefit and endowment amount, moment; every order in which rules are tried',
  'Tests give a few facts and look at one answer, reached through one chain of rules; a wrong rule is only visible when the particular facts make it the first that applies, and with unit benefits many mistakes cancel.',
  ['recursion.py'], [('mortality rules', 'recursion.py Recursion._q_x, _p_x, q_x, p_x'), ('expectation rules', 'recursion.py Recursion._e_x, e_x'), ('pure endowment rules', 'recursion.py Recursion._E_x, E_x'),
                     ('varying insurance rules', 'recursion.py Recursion._IA_x, _DA_x, increasing_insurance, decreasing_insurance'),
                     ('insurance rules', 'recursion.py Recursion._A_x, whole_life_insurance, term_insurance, deferred_insurance, endowment_insurance'),
                     ('annuity rules', 'recursion.py Recursion._a_x, whole_life_annuity, temporary_annuity, deferred_annuity')]),
P('C16', 'A stored fact answers every query for the same value and no other',
  'A fact given to the recursion solver (survival, mortality, expectation, pure endowment, increasing or decreasing insurance, insurance, annuity; with select age, duration, term, deferral, moment, benefit and endowment amount, '
  'discrete or continuous) is returned, scaled to the benefit asked for, by every lookup that denotes the same contract value: at another selection age and duration with the same attained age, for another benefit, '
  'for an implied endowment amount, through the public query. No lookup of another value returns it. Giving a fact again replaces it, giving None removes it, and other facts are untouched.',
  'every value and argument of a stored fact; pairs of stored and queried contracts enumerated over moment, timing, term and benefit classes',
  'Tests store a fact and ask for it under the same arguments; each lookup has its own default arguments, key and benefit scaling, and a wrong key is only visible for the particular pair of contracts it confuses.',
  ['recursion.py'], [('store', 'recursion.py Recursion._db_key, _db_put, _db_get'), ('setters', 'recursion.py Recursion.set_q, set_p, set_e, set_E, set_IA, set_DA, set_A, set_a'),
                     ('getters', 'recursion.py Recursion._get_q, _get_p, _get_e, _get_E, _get_IA, _get_DA, _get_A, _get_a')]),
P('C17', 'Every query ends',
  'No query method of any class calls itself, directly or through other methods or through overrides in a subclass, without an argument that is bounded and moves toward its bound on the way round: '
  'the recursion solver always stops at its depth limit whatever facts it has been given, and every shortcut, limit, moment or continuous branch of the survival, insurance, annuity, table, law, m-thly and policy value classes ends in a computation that does not ask for itself again.',
  'every receiver class, method, argument class and set of facts',
  'Tests ask a few questions that end; a cycle needs the one combination of arguments and class (override) that leads back to the same question.',
  ['lifetime.py', 'insurance.py', 'annuity.py', 'recursion.py', 'lifetable.py', 'selectlife.py', 'mortalitylaws.py', 'constantforce.py', 'mthly.py', 'udd.py', 'woolhouse.py', 'policyvalues.py', 'reserves.py', 'fractional.py', 'extrarisk.py'],
  [('solver depth', 'recursion.py Recursion._q_x, _p_x, _e_x, _E_x, _IA_x, _DA_x, _A_x, _a_x'), ('shortcuts', 'insurance.py, annuity.py, lifetime.py: methods that call variants of themselves'),
   ('overrides', 'lifetable.py, selectlife.py, mortalitylaws.py, constantforce.py overrides of lifetime, insurance and annuity methods')]),
P('C18', 'Tracing takes no part in an answer',
  'Answers, errors, stored facts and filled tables are the same whether a recursion solver or a table is verbose or silent and in whichever display style: nothing the trace objects, the verbose switch or the style determine reaches them. '
  'Tracing itself never fails: every query opens its own trace, every recorded step supplies what the recorder requires, formatting any term gives text in both styles, '
  'repeated steps are recorded once, dropping abandoned steps keeps messages, depths and rules in step, and a silent or empty trace prints nothing.',
  'every query, set of facts, style and verbosity; every method of every class; histories of up to three steps with any depths',
  'Tests run in one style and verbosity and rarely read what is printed; a step that cannot be formatted, or an answer that depends on the log, only shows with the facts that trigger that rule.',
  ['recursion.py', 'lifetable.py', 'selectlife.py'], [('recorder', 'recursion.py _Blog.__call__, pop, __len__, __str__, display'), ('formatters', 'recursion.py _Blog and PPrint: q, p, e, E, IA, DA, A, a, m'),
                     ('steps', 'recursion.py Recursion: every self.blog call'), ('table fill', 'lifetable.py LifeTable.fill_table; selectlife.py SelectLife.fill_table')]),
P('C19', 'M-thly, UDD and Woolhouse values follow from the annual model',
  'Exact m-thly insurances, annuities, survival and deferred mortality equal sums over m-thly periods (or integrals when continuous) of the underlying survival model; uniform-deaths values equal the same sums when deaths are '
  'uniform within each year, in terms of the annual values; Woolhouse values are the annual annuities with the two- or three-term correction, using the force of mortality given or approximated. '
  'This holds for whole life, term, endowment, deferred, pure endowment and temporary cases, for first and second moments, variances, benefit amounts, deferral and terms at or past the limiting age, and follows a later change of the interest rate.',
  'every survival curve, positive interest rate, frequency m (continuous m=0 included), age, years since selection, term, deferral, benefit and moment',
  'Tests check a few 12-thly or semiannual values from issue; frequency, duration, deferral, moment and limiting age combine into separate branches whose error terms are small enough to pass loose comparisons.',
  ['mthly.py', 'udd.py', 'woolhouse.py'], [('exact', 'mthly.py Mthly.v_m, p_m, q_m, Z_m, A_x, whole_life_insurance, term_insurance, whole_life_annuity, temporary_annuity'),
                         ('uniform deaths', 'udd.py UDD.alpha, beta, whole_life_insurance, term_insurance, endowment_insurance, whole_life_annuity, temporary_annuity, deferred_annuity'),
                         ('Woolhouse', 'woolhouse.py Woolhouse.mu_x, whole_life_annuity, temporary_annuity, insurance_twin')]),
P('C20', 'Extra mortality risk transforms the survival of the base model',
  'Survival and mortality rates under an extra risk are those of the base model with the named transformation (force added or multiplied by a constant, age rated up, rate multiplied), for every select duration, '
  'whether read through survival, mortality or column indexing; without extra risk they are the rates of the base model unchanged, and an unknown risk or a negative amount is rejected.',
  'every base survival curve, age, years since selection, kind and amount of extra risk',
  'Tests compute single rates at duration zero; each kind of risk is its own branch and must transform every age and duration.',
  ['extrarisk.py'], [('transformation', 'extrarisk.py ExtraRisk.p_x, q_x, __getitem__'), ('constructor', 'extrarisk.py ExtraRisk.__init__')]),
P('C21', 'Mean, variance and portfolio formulas are those of the named distributions',
  'Mean and variance of Bernoulli, binomial and mixture lifetimes, covariance, variance of a linear combination and conditional variance equal the moments of the named distribution for every parameter. '
  'Portfolio percentile and probability are the normal approximation with the portfolio mean and standard deviation, and parameters that are not probabilities or counts are rejected.',
  'every probability, count and value', 'Tests evaluate single parameter points; degenerate values (0, 1, one policy) take the same formulas and must agree for all.',
  ['life.py'], [('formulas', 'life.py Life.bernoulli, binomial, mixture, conditional_variance, variance, covariance'), ('portfolio', 'life.py Life.portfolio_percentile, portfolio_cdf')]),
P('C22', 'Queries change nothing, setters change only their own model',
  'No query of any class (survival, expectation, insurance, annuity, premium, policy value, reserve, table or recursion lookup, plot or frame) changes the model it is asked of, a model it is built on, a contract or any other argument (a plot may draw on the axes it is given), '
  'so repeated and interleaved queries give the same answers in any order; only the trace of a recursion is replaced. Setters and constructors change only the model they are called on: '
  'they neither change nor keep for later change what their caller passed in, and no mutable state is shared between models, calls or default arguments.',
  'every query and setter of every class, every history of calls',
  'Tests build a model, ask once and discard it; a query that leaves something behind (a cached value, a changed rate or contract, a table cell) only shows in a later query on the same or a related object.',
  ['actuarial.py', 'life.py', 'survival.py', 'lifetime.py', 'fractional.py', 'insurance.py', 'annuity.py', 'premiums.py', 'policyvalues.py', 'reserves.py', 'recursion.py', 'lifetable.py', 'selectlife.py', 'sult.py', 'mortalitylaws.py',
   'constantforce.py', 'mthly.py', 'udd.py', 'woolhouse.py', 'extrarisk.py', 'interest.py'],
  [('setters', 'life.py set_interest; survival.py set_survival; lifetable.py set_table; selectlife.py set_table, set_select; reserves.py set_reserves; recursion.py set_*'), ('contract', 'policyvalues.py Contract'),
   ('queries', 'all other public methods')]),
P('C23', 'Every name, attribute and internal call resolves on every path',
  'No function of the library fails because of a name: every global, import and attribute of the model, of a contract or of an interest object that it reads exists in every class that may execute it, '
  'every local is assigned on every path that reads it, and every internal call (of a method, a superclass method, a constructor or a library function) matches the parameters of every definition that an override may supply.',
  'every function, every branch, every subclass that inherits the function',
  'Names in Python resolve only when the line runs; a rare branch (an option, an error message, a plot without a marker) or a subclass with a different signature fails only for the caller who reaches it.',
  ['actuarial.py', 'life.py', 'survival.py', 'lifetime.py', 'fractional.py', 'insurance.py', 'annuity.py', 'premiums.py', 'policyvalues.py', 'reserves.py', 'recursion.py', 'lifetable.py', 'selectlife.py', 'sult.py', 'mortalitylaws.py',
   'constantforce.py', 'mthly.py', 'udd.py', 'woolhouse.py', 'extrarisk.py', 'interest.py'],
  [('all functions', 'every function of src/actuarialmath')]),
P('C24', 'Terms and numerical primitives mean what every formula assumes',
  'Adding terms is whole life as soon as either term is, and the sum otherwise; a term is cut at the limiting age after its deferral, and only then, where the limiting age of a select table is one past the last age with an ultimate rate. '
  'The integral is that of the given function between the given limits, the derivative that of the given function, which is only ever given single numbers, at the given point, two values are close when they differ by at most the tolerance, and '
  'solving returns a root of function equals target (or the minimiser of their absolute difference), starting inside the given range and leaving the function last evaluated at the root returned.',
  'every function, limits, target, range of guesses, term, deferral and limiting age',
  'Every other formula is built on these; tests reach them only through results at a few points, where swapped limits, an ignored tolerance or deferral, or a boundary off by one can stay within rounding.',
  ['actuarial.py', 'selectlife.py'], [('primitives', 'actuarial.py Actuarial.integral, derivative, solve, isclose'), ('terms', 'actuarial.py Actuarial.add_term, max_term; selectlife.py SelectLife.max_term')]),
P('C25', 'Frames and plots show the values the queries answer',
  'Every cell of a frame (life table, select table, reserves, standard ultimate table, UDD interest functions, normal quantiles) is the value stored or answered by the query its row and column name, with the arguments the column names. '
  'Plots of the insurance, annuity and loss random variables draw the present value at every time from zero to the stop (the limiting age by default), with the benefit of the plotted age, the survival probability of the plotted life on request, '
  'and at a marked time the value there, which is returned; the plot of reserves draws the reserve of each year.',
  'every table contents, rate, age, duration, benefit function, contract and marked time; discrete and continuous',
  'Tests call frames and plots at most for their side effect; a column computed with the wrong term, a row shifted by a year or a marker of another age looks like any other number.',
  ['insurance.py', 'annuity.py', 'policyvalues.py', 'reserves.py', 'life.py', 'lifetable.py', 'selectlife.py', 'sult.py', 'udd.py'],
  [('frames', 'life.py Life.quantiles_frame; lifetable.py LifeTable.frame; selectlife.py SelectLife.frame; sult.py SULT.frame; udd.py UDD.interest_frame; reserves.py Reserves.reserves_frame'),
   ('plots', 'insurance.py Insurance.Z_plot; annuity.py Annuity.Y_plot; policyvalues.py PolicyValues.L_plot; reserves.py Reserves.V_plot')]),
P('C26', 'An argument left out stands for the same value on every model',
  'A method called without one of its optional arguments answers as if the neutral value had been given: no years since selection, no deferral, a whole age, unit benefit, first moment, mean rather than variance, payment at the end of the year, no expenses, no returned premiums. '
  'A term left out is one year for probabilities, pure endowments, term and endowment insurances, and to the limiting age for expectations, whole life, deferred and temporary products. '
  'Every class that redefines a method (life tables, select tables, mortality laws, recursion) keeps what leaving the argument out means; where a model family has its own convention (m-thly and Woolhouse terms, complete expectations of the laws) all its classes share it.',
  'every public method of every model class and every optional argument with an agreed meaning',
  'Tests mostly pass the arguments that matter or none; one class in which an omitted argument means something else answers a different question without failing, and only comparing all redefinitions shows it.',
  ['insurance.py', 'annuity.py', 'lifetable.py', 'selectlife.py', 'mortalitylaws.py', 'constantforce.py', 'mthly.py', 'udd.py', 'woolhouse.py', 'recursion.py', 'survival.py', 'fractional.py'],
  [('redefinitions', 'mortalitylaws.py Uniform.E_x, Uniform.term_insurance; constantforce.py ConstantForce.E_x; recursion.py Recursion'), ('base methods', 'insurance.py Insurance; annuity.py Annuity')]),
P('C27', 'Requests outside the domain are refused and those at its edge are answered',
  'A request outside the documented domain raises instead of returning a number: a negative age, years since selection, fractional start or duration of a survival query at a fractional age; a negative rate or payment frequency, or no rate; a probability outside zero to one or fewer than one trial; a moment the quantity is not defined for; a whole life decreasing benefit; a variance for a limited term policy that is not an equal endowment; contradictory, missing, unknown or unusable inputs of a constructor. '
  'A negative part is refused even when another argument would bring the total back into range. '
  'A request exactly at the edge (age zero, zero duration, zero rate, probability zero or one, one trial, zero extra risk) is answered with the value of its definition.',
  'every input outside, or exactly on, the edge of the documented domain of every public query that documents one',
  'Tests ask only for quantities that exist; a guard that is dropped or loosened leaves every valid answer as it was and silently answers nonsense for the others.',
  ['survival.py', 'lifetime.py', 'fractional.py', 'interest.py', 'life.py', 'insurance.py', 'annuity.py', 'mthly.py', 'udd.py', 'selectlife.py', 'extrarisk.py', 'mortalitylaws.py', 'policyvalues.py', 'premiums.py', 'recursion.py'],
  [('guards', 'survival.py Survival; fractional.py Fractional; life.py Life; interest.py Interest; mthly.py Mthly.A_x; policyvalues.py PolicyValues.net_policy_variance')]),
P('C28', 'The standard ultimate life table is the table of its survival function',
  'For any survival function, radix, interest rate and age range, the standard ultimate life table built from them has radix times the survival of a life at the lowest age as its lives at every age of the range and at no other, deaths, mortality and '
  'survival rates of those same lives, the given interest rate, and the asked interpolation at fractional ages; what is left out is the published basis (Makeham with A = 0.00022, B = 0.0000027, c = 1.124, 5% interest, 100000 lives at 20, ages 20 to 130). '
  'A column asked for by name holds, at every age of the table, the mortality or survival rate or the whole life annuity or insurance value at that age, and an unknown column is refused.',
  'every survival function, radix and interest rate; small age ranges and the full default range enumerated; every column',
  'Tests compare a few textbook answers from the default table rounded to four digits; other ranges, radices and laws of mortality, and each cell, are never looked at.',
  ['sult.py'], [('construction', 'sult.py SULT.__init__, _faml_sult'), ('columns', 'sult.py SULT.__getitem__')]),
P('C29', 'Recursion finds what one documented step gives from the known facts',
  'Within its depth limit (a limit of one or two steps is enough, the default of three is looked at for all but expectations of life) the recursion solver answers, with the exact value and not nothing or an error, every query that one of its documented identities gives from the facts it holds: mortality and survival from each other, deferred mortality, '
  'survival chained over the first or last year, divided out of a longer term or read off a pure endowment or consecutive annuities or insurances; limited and whole expectations from those of other durations; pure endowments from survival, insurances, their mean or a chain; '
  'increasing and decreasing insurances from each other or a year later; endowment, term, deferred and whole life insurances and temporary, deferred and whole life annuities from each other, from the one a year later or earlier, '
  'variances from moments, and insurances and annuities as twins; for either timing and any benefit amount where the identity allows it.',
  'every value of the facts consistent with one survival curve, positive interest rate, age, duration, term, deferral, benefit and endowment amount; identities and number of years chained enumerated',
  'Tests solve a few textbook problems; each identity is a rule of its own whose conditions, arguments or depth accounting can stop it from applying, which shows only when the known facts leave no other way to the answer.',
  ['recursion.py', 'insurance.py', 'annuity.py'], [('mortality rules', 'recursion.py Recursion._q_x, _p_x, q_x, p_x'), ('expectation rules', 'recursion.py Recursion._e_x, e_x'), ('pure endowment rules', 'recursion.py Recursion._E_x, E_x'),
                     ('varying insurance rules', 'recursion.py Recursion._IA_x, _DA_x'), ('insurance rules', 'recursion.py Recursion._A_x and public insurances'),
                     ('annuity rules', 'recursion.py Recursion._a_x and public annuities'), ('fallbacks', 'insurance.py Insurance; annuity.py Annuity')]),
P('C30', 'Documented calls are accepted, by every class that offers the query',
  'Every argument that the description of a public query, setter or constructor names is taken by that name; every call shown in its examples, in the examples of the module or in the guide names a method of the class of its object and passes arguments that the method takes; '
  'what the guide imports can be imported; a class that redefines a query takes every keyword that the query it redefines takes, and requires none that it does not (a class that offers only the mean has no moment to choose), with the arguments they share in the same order, so that one form of survival model can replace another; '
  'and every setter returns the object it was called on, so that setters can be chained.',
  'every documented argument, every example call, every pair of a query and its redefinition, every return of every setter in every class',
  'Tests call each class with the arguments that the author happened to need; a name that one class spells differently, or a setter that returns nothing on one path, shows only when a user combines them otherwise.',
  ['actuarial.py', 'interest.py', 'life.py', 'survival.py', 'lifetime.py', 'fractional.py', 'insurance.py', 'annuity.py', 'premiums.py', 'policyvalues.py', 'reserves.py', 'recursion.py', 'lifetable.py', 'selectlife.py', 'sult.py', 'mortalitylaws.py', 'constantforce.py', 'extrarisk.py', 'mthly.py', 'udd.py', 'woolhouse.py'],
  [('signatures', 'every public method and its docstring'), ('setters', 'life.py Life.set_interest; survival.py Survival.set_survival; recursion.py Recursion.set_q, set_p, set_e, set_E, set_A, set_a, set_IA, set_DA; lifetable.py LifeTable.set_table; selectlife.py SelectLife.set_table, set_select; reserves.py Reserves.set_reserves; policyvalues.py Contract.set_contract')]),
P('C31', 'A later setting takes the place of an earlier one',
  'After any history of settings a model answers from the settings as they stand: the survival function, rate of interest, reserves or fact set last is the one every query uses, whatever was set or asked before. '
  'A setter changes only what its own setting consists of and does not depend on the other settings as they were at the time (a select table filled with insurances or annuities, and reserves filled from the model, are computed at the settings of that moment), so settings of different kinds may be made in any order (a life table is added to cell by cell, and keeping its cells consistent is left to the user). '
  'A payment-frequency or extra-risk adjustment follows a change of rate of the model it was built on, and no object or remembered answer keeps a value worked out from a setting that has since changed.',
  'every sequence of settings and queries on every class; every survival function and rate replaced by another',
  'Tests construct a fresh model, set each thing once and ask; a value kept from an earlier setting is right in every such test and wrong only after a second setting.',
  ['life.py', 'survival.py', 'reserves.py', 'recursion.py', 'lifetable.py', 'selectlife.py', 'mthly.py', 'udd.py', 'woolhouse.py', 'extrarisk.py'],
  [('setters', 'life.py Life.set_interest; survival.py Survival.set_survival; lifetable.py LifeTable.set_table; selectlife.py SelectLife.set_table, set_select; reserves.py Reserves.set_reserves; recursion.py Recursion.set_q ...'),
   ('adjustments', 'mthly.py Mthly.__init__; udd.py UDD.__init__; woolhouse.py Woolhouse.__init__; extrarisk.py ExtraRisk.__init__')],
  over=('histories',)),
]

TECH = 'abstract interpretation of the source over a canonical algebra, compared with contracts'

NA = [dict(id='N01', title='Numerical answers are accurate to the displayed precision',
  statement='Every quantity found by numerical integration, differentiation or root search, and every long sum or product in floating point, agrees with the exact value of its definition to the precision that the library displays, and the search for a root ends with a root whenever the given range brackets one.',
  text='every smooth or piecewise smooth survival function, every term up to the limiting age, every starting range of a root search',
  over=['inputs'], why='Tests compare rounded figures of a few problems; error of a quadrature or of a finite difference depends on the shape of the function the user gives.',
  files=[SRC + 'actuarial.py'], mech=[('integral, derivative, solve', 'actuarial.py Actuarial.integral, derivative, solve')], state=None,
  reason='The error depends on the numerical behaviour of scipy routines on functions given at run time; no static argument over the source bounds it. What is decided instead is that the source asks the right routine for the right quantity on the right range (C24), with exact algebra everywhere else.')]
