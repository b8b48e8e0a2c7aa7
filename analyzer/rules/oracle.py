from iba.rules import prop

O, A = "oracle::", "currency::Amount::"
NOW = "pallet_timestamp::Pallet::get()"


@prop("O01")
def aggregate(c):
    v = c.fn(O + "update_aggregate", args="key", opaque=("median",))
    v.let("X", "@iterst('iter_prefix', 'oracle::RawValues', key)").let("FRESH", "(@satsub(%s, oracle::MaxDelay) <= elem(X).1.timestamp)" % NOW).let("ANY", "@exists(X, FRESH)")
    v.let("MED", O + "median(mapit(filter(X, FRESH), elem(X).1.value))").let("MIN", "mapit(filter(X, FRESH), elem(X).1.timestamp).min()")
    v.must("@write('oracle::RawValuesUpdated', false, key)", why="a key is recomputed when values arrive, not on every block")
    v.must("@delete('oracle::Aggregate', key)", when="!ANY", why="no price outlives every value it came from")
    v.must("@delete('oracle::ValidUntil', key)", when="!ANY")
    v.must("@write('oracle::Aggregate', MED#Some, key)", when=["ANY", "MED is Some"], why="the price is the median of the values that are recent enough")
    v.must("@write('oracle::ValidUntil', oracle::MaxDelay + MIN, key)", when=["ANY", "MED is Some", "MIN is Ok"], why="valid until the oldest value expires")
    v.never("@delete('oracle::Aggregate', _)", when="ANY")
    v.never("@write('oracle::Aggregate', ..)", when="!ANY")
    v.must("T::OnExchangeRateChange::on_exchange_rate_change(key#Key::ExchangeRate)", when=["key is Key::ExchangeRate", "!ANY"], why="pools follow every price change")
    v.must("T::OnExchangeRateChange::on_exchange_rate_change(key#Key::ExchangeRate)", when=["key is Key::ExchangeRate", "MED is Some"])
    v.order("@delete('oracle::Aggregate', _)", "T::OnExchangeRateChange::on_exchange_rate_change(..)", when="!ANY", why="pools read the new price")
    v.order("@write('oracle::Aggregate', ..)", "T::OnExchangeRateChange::on_exchange_rate_change(..)", when="ANY")
    v.returns("(if (ANY && MED is Some) {Some(MED#Some)} else {None})")
    m = c.fn(O + "median", args="x")
    m.let("S", "@mut('sort', x)").let("H", "len(x) / 2")
    m.returns("(if (len(x) == 0) {None} else {Some((if (len(x) % 2 == 1) {S[H]} else {S[H - 1] + (S[H] - S[H - 1]) / 2}))})", why="the middle value, or the mean of the two middle values, for any values")
    b = c.fn(O + "begin_block", args="n", opaque=("update_aggregate",))
    b.let("K", "@iterst('iter', 'oracle::RawValuesUpdated')").let("DUE", "elem(K).1 || (@has(oracle::ValidUntil[elem(K).0]) && oracle::ValidUntil[elem(K).0] < %s)" % NOW)
    b.must(O + "update_aggregate(elem(K).0)", when="DUE", why="new values and expired prices take effect in the next block")
    b.never(O + "update_aggregate(..)", when="!(DUE)")
    b.must("Self::deposit_event(Event::AggregateUpdated{values: mapit(filter(K, DUE), (elem(K).0, " + O + "update_aggregate(elem(K).0)))})", when="@exists(K, DUE)")
    h = c.fn(O + "Hooks::on_initialize", args="n", opaque=("begin_block",))
    h.must(O + "begin_block(n)", why="prices expire without anyone calling")


@prop("O02")
def feeds(c):
    v = c.fn(O + "feed_values", args="o,values")
    v.let("S", "frame_system::ensure_signed(o)")
    v.requires("S is Ok")
    v.requires("@has(oracle::AuthorizedOracles[S])", why="only authorised oracles set prices")
    v.must("@write('oracle::RawValues', TimestampedValue{timestamp: %s, value: elem(values).1}, elem(values).0, S)" % NOW, why="a value replaces only the same oracle's value")
    v.must("@write('oracle::RawValuesUpdated', true, elem(values).0)")
    v.must("Self::deposit_event(Event::FeedValues{oracle_id: S, values: values})")
    i = c.fn(O + "insert_authorized_oracle", args="o,a,n")
    i.requires("frame_system::ensure_root(o) is Ok")
    i.must("@write('oracle::AuthorizedOracles', n, a)")
    i.must("Self::deposit_event(Event::OracleAdded{oracle_id: a, name: n})")
    r = c.fn(O + "remove_authorized_oracle", args="o,a")
    r.requires("frame_system::ensure_root(o) is Ok")
    r.must("@delete('oracle::AuthorizedOracles', a)")
    r.must("Self::deposit_event(Event::OracleRemoved{oracle_id: a})")
    g = c.fn(O + "GenesisConfig::build", args="self")
    g.must("@write('oracle::MaxDelay', self.max_delay)")
    g.must("@write('oracle::AuthorizedOracles', elem(self.authorized_oracles).1, elem(self.authorized_oracles).0)")
    up = [O + "Hooks::on_initialize", O + "begin_block"]
    c.only_writers("oracle::AuthorizedOracles", [O + "insert_authorized_oracle", O + "remove_authorized_oracle", O + "GenesisConfig::build"], why="oracles are appointed by governance")
    c.only_writers("oracle::RawValues", [O + "feed_values", O + "_feed_values"])
    c.only_writers("oracle::RawValuesUpdated", [O + "feed_values", O + "_feed_values"] + up)
    c.only_writers("oracle::Aggregate", up + [O + "_set_exchange_rate"], why="prices come only from the aggregation")
    c.only_writers("oracle::ValidUntil", up)
    c.only_writers("oracle::MaxDelay", [O + "GenesisConfig::build"])
    c.only_callers(O + "_feed_values", [O + "feed_values"])
    c.only_callers(O + "_set_exchange_rate", [], minimum=0, why="a testing helper")


@prop("O03")
def conversion(c):
    v = c.fn(O + "get_price", args="k")
    v.requires("@has(oracle::Aggregate[k])", why="without a price nothing is converted")
    v.returns("oracle::Aggregate[k]")
    v = c.fn(O + "wrapped_to_collateral", args="n,cur", opaque=("get_price",))
    v.let("P", O + "get_price(Key::ExchangeRate(cur))")
    v.requires("P is Ok")
    v.returns(A + "amount(" + A + "checked_rounded_mul(@amount(n, cur), P, Rounding::Down))")
    v = c.fn(O + "collateral_to_wrapped", args="n,cur", opaque=("get_price",))
    v.let("P", O + "get_price(Key::ExchangeRate(cur))")
    v.requires("P is Ok", why="nothing is worth something at an unknown price")
    v.returns("(if (n == 0) {0} else {" + A + "amount(" + A + "checked_div(@amount(n, cur), P))})")
    v = c.fn(O + "OracleApi::convert", args="a,to", opaque=("wrapped_to_collateral", "collateral_to_wrapped"))
    v.let("N", A + "amount(a)").let("F", A + "currency(a)").let("W", "@cfg('GetWrappedCurrencyId')")
    for cond, x in ((["F == to"], "N"), (["F != to", "F == W"], O + "wrapped_to_collateral(N, to)"), (["F != to", "F != W", "to == W"], O + "collateral_to_wrapped(N, F)"),
                    (["F != to", "F != W", "to != W"], O + "wrapped_to_collateral(" + O + "collateral_to_wrapped(N, F), to)")):
        v.returns("@amount(%s, to)" % x, when=cond, why="prices are per unit of wrapped currency, so other pairs go through it")
        if x != "N":
            v.requires(x + " is Ok", when=cond)
