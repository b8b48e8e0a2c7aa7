from iba.rules import prop

B = "btc_swap::BtcSwap::"


@prop("C01")
def swap(c):
    v = c.fn(B + "execute_trade", args="self,cp,proof")
    v.bind("O", "self.orders[cp]", opt=True) or v.bind("O", "_.orders[cp]")
    v.bind("PAY", "_.get_and_verify_bitcoin_payment(proof, O.btc_address)", opt=True) or v.let("PAY", "_.get_and_verify_bitcoin_payment(proof, O.btc_address)")
    v.requires("has(O)", why="there is such an order")
    v.requires("PAY is Ok", why="paid out only against a verified payment to the order's address")
    v.requires("O.min_satoshis <= (if PAY is Some {PAY#Some} else {0})", alt=["O.min_satoshis <= (if PAY is Some {PAY#Some} else {@default()})"], why="the payment reaches the order's minimum")
    v.requires("_.transfer(self.env().caller(), O.plancks) is Ok", why="exactly the locked amount is paid")
    v.ends("self", "orders", "@mut('remove', self.orders, cp)", why="an order pays out only once")
    v.count("_.transfer(..)", 1)
    if v.bind("TR", "_.transfer(self.env().caller(), O.plancks)", opt=True):
        v.admits(["has(O)", "PAY is Ok", "PAY is Some", "O.min_satoshis == PAY#Some", "TR is Ok"], why="a payment of exactly the minimum is enough")
    t = c.fn(B + "create_trade", args="self,a,m")
    t.requires("m != 0", why="an order has a price")
    t.ends("self", "orders", "@mut('insert', self.orders, self.env().caller(), LimitOrder{btc_address: a.encode(), min_satoshis: m, plancks: self.env().transferred_value()})",
           why="the order locks what its creator transferred, under the creator's account")
    t.requires("_.transfer(self.env().caller(), self.orders[self.env().caller()].plancks) is Ok", when="has(self.orders[self.env().caller()])", why="a replaced order gives back what it locked")
    t.admits(["m == 1", "!has(self.orders[self.env().caller()])"], why="every price is allowed")
    f = c.fn("btc_swap::RuntimeErr::from_status_code", args="n")
    f.requires("n == 0", why="only status zero is a success")
    f.rejects_only("n != 0")
    f.accepts(["n == 0"], why="a verified payment is not refused")


@prop("C02")
def flipper(c):
    F = "hello_world::Flipper::"
    v = c.fn(F + "flip", args="self")
    v.ends("self", "value", "!self.value", why="every flip toggles the stored value")
    c.fn(F + "get", args="self").returns("self.value", why="reads report the stored value")
    c.fn(F + "new", args="x").returns("x", path="value")
    c.fn(F + "new_default", args="").returns(["false", "@default()", "@default('bool')"], path="value")
