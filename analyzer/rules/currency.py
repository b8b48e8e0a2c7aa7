from iba.rules import prop

A = "currency::Amount::"
MUL = "helpers_128bit::multiply_by_rational_with_rounding"
DIV = "@path('UnsignedFixedPoint::DIV')"


@prop("A01")
def arithmetic(c):
    """amounts of different currencies never meet"""
    SAME = "self.currency_id == other.currency_id"
    for n, op in (("checked_add", "checked_add"), ("checked_accrue", "checked_add"), ("checked_sub", "checked_sub")):
        v = c.fn(A + n, args="self,other")
        v.requires(SAME, why="amounts of different currencies cannot be added up")
        v.returns("@amount(BalanceOf::%s(self.amount, other.amount), self.currency_id) ||| @amount(self.amount %s other.amount, self.currency_id)" % (op, "+" if "add" in op else "-"))
        v.accepts([SAME], explicit=True)
    v = c.fn(A + "saturating_sub", args="self,other", opaque=("checked_sub",))
    v.requires(SAME)
    v.returns("(if (%schecked_sub(self, other) is Ok) {%schecked_sub(self, other)} else {@amount(0, self.currency_id)}) ||| @amount(@satsub(self.amount, other.amount), self.currency_id)" % (A, A), why="the difference or zero of the same currency")
    for n, x in (("lt", "self.amount < other.amount"), ("le", "self.amount <= other.amount"), ("eq", "self.amount == other.amount"), ("ne", "self.amount != other.amount"),
                 ("ge", "other.amount <= self.amount"), ("gt", "other.amount < self.amount")):
        v = c.fn(A + n, args="self,other")
        v.requires(SAME, why="amounts of different currencies cannot be compared")
        v.returns(x)
        v.accepts([SAME])
    for n, x in (("min", "(if (self.amount <= other.amount) {self} else {other})"), ("max", "(if (other.amount <= self.amount) {self} else {other})")):
        v = c.fn(A + n, args="self,other")
        v.requires(SAME)
        v.returns(x)
        v.accepts([SAME])
    v = c.fn(A + "ratio", args="self,other")
    v.requires(SAME)
    v.requires("currency::UnsignedFixedPoint::checked_from_rational(self.amount, other.amount) is Ok")
    v.returns("currency::UnsignedFixedPoint::checked_from_rational(self.amount, other.amount)")
    for n, a, x in (("checked_rounded_mul", "self,scalar,rounding", "%s(self.amount, scalar, %s, rounding)" % (MUL, DIV)), ("checked_div", "self,scalar", "%s(self.amount, %s, scalar, Rounding::Down)" % (MUL, DIV))):
        v = c.fn(A + n, args=a)
        v.requires(x + " is Ok", why="overflow is an error")
        v.returns("@amount(%s, self.currency_id)" % x, why="scaling keeps the currency and rounds as told")
    v = c.fn(A + "checked_mul", args="self,scalar", opaque=("checked_rounded_mul",))
    v.returns(A + "checked_rounded_mul(self, scalar, Rounding::Down)")
    v = c.fn(A + "new", args="n,cur")
    v.returns("@amount(n, cur)")
    c.fn(A + "amount", args="self").returns("self.amount")
    c.fn(A + "currency", args="self").returns("self.currency_id")
    c.fn(A + "zero", args="cur").returns("@amount(0, cur)")
    v = c.fn(A + "set_currency", args="self,cur")
    v.returns("self.{currency_id: cur} ||| @amount(self.amount, cur)")
    c.fn(A + "is_zero", args="self").returns("self.amount == 0")
    v = c.fn(A + "mul_ratio_floor", args="self,ratio", opaque=("map",))
    v.returns(A + "map(self, _) ||| @amount(ratio.mul_floor(self.amount), self.currency_id)")
    v = c.fn(A + "map", args="self,f")
    v.returns("@amount(f(self.amount), self.currency_id)")


@prop("A01")
def fixed(c):
    for n, s in (("from_signed_fixed_point", "x,cur"), ("from_unsigned_fixed_point", "x,cur")):
        v = c.fn(A + n, args=s)
        v.requires("x.truncate_to_inner() is Ok ||| x.truncate_to_inner() is Some".split(" ||| ")[0], alt=["x.truncate_to_inner() is Some"])
        v.requires("@tryconv(x.truncate_to_inner()) is Ok", why="negative or too large values are rejected")
        v.returns("@amount(x.truncate_to_inner(), cur)")
    for n in ("to_signed_fixed_point", "to_unsigned_fixed_point"):
        v = c.fn(A + n, args="self")
        v.requires("@tryconv(self.amount) is Ok")
        v.returns("Config::checked_from_integer(self.amount)")
    c.fn(A + "convert_to", args="self,cur").returns("T::CurrencyConversion::convert(self, cur)")


@prop("A02")
def actions(c):
    P = "orml_tokens::Pallet::"
    v = c.fn(A + "transfer", args="self,a,b")
    v.requires(P + "transfer(self.currency_id, a, b, self.amount) is Ok", why="exactly the amount moves, of its own currency, in this direction")
    v = c.fn(A + "lock_on", args="self,a")
    v.requires(P + "reserve(self.currency_id, a, self.amount) is Ok")
    v = c.fn(A + "unlock_on", args="self,a")
    v.requires(P + "unreserve(self.currency_id, a, self.amount) == 0", why="a partial release is an error")
    v = c.fn(A + "burn_from", args="self,a")
    v.requires(P + "slash_reserved(self.currency_id, a, self.amount) == 0", why="only locked tokens are burned, and all of them")
    v = c.fn(A + "mint_to", args="self,a")
    v.requires(P + "deposit(self.currency_id, a, self.amount) is Ok")
    for n in ("transfer", "lock_on", "unlock_on", "burn_from", "mint_to"):
        c.fn(A + n, args="self,a,b" if n == "transfer" else "self,a").count("orml_tokens::Pallet::?f(..)".replace("?f", {"transfer": "transfer", "lock_on": "reserve", "unlock_on": "unreserve", "burn_from": "slash_reserved", "mint_to": "deposit"}[n]), 1)
    for n, x in (("get_free_balance", "free_balance"), ("get_reserved_balance", "reserved_balance")):
        c.fn("currency::" + n, args="cur,a").returns("@amount(orml_tokens::Pallet::%s(cur, a), cur)" % x)
    v = c.fn("currency::SweepFunds::on_sweep", args="who,n", opaque=("transfer",))
    v.requires(A + "transfer(n, who, @cfg('GetAccountId')) is Ok", why="swept funds go to the configured account")
    for n, x in (("relay_chain", "GetRelayChainCurrencyId"), ("native", "GetNativeCurrencyId"), ("wrapped", "GetWrappedCurrencyId")):
        c.fn("currency::getters::get_%s_currency_id" % n).returns("@cfg('%s')" % x)


@prop("A03")
def convert(c):
    v = c.fn("currency::CurrencyConvert::convert", args="a,to")
    F, T = "a.currency_id.is_lend_token()", "to.is_lend_token()"
    U = "Loans::recompute_underlying_amount(a)"
    for cond, x in (([F, T], "Loans::recompute_collateral_amount(Oracle::convert(%s, Loans::underlying_id(to)))" % U), ([F, "!" + T], "Oracle::convert(%s, to)" % U),
                    (["!" + F, T], "Loans::recompute_collateral_amount(Oracle::convert(a, Loans::underlying_id(to)))"), (["!" + F, "!" + T], "Oracle::convert(a, to)")):
        v.requires(x + " is Ok", when=cond)
        v.returns(x, when=cond, why="lend tokens are valued through their underlying currency on both sides")
    v.requires("Loans::underlying_id(to) is Ok", when=T)
    v.requires(U + " is Ok", when=F)
