"""Generators of concrete calls of the real code: storage, message, funds and the answers of the other contracts.

A generator makes calls that mostly pass the checks of the code, with numbers around the boundaries, and spoils some aspect of
every third call. Integers of a solver model and texts of the code under test are used as hints."""
import json, base64, random

W18 = 10 ** 18
U128 = 2 ** 128 - 1
PEOPLE = ["halo1user", "halo1bob", "halo1carol"]
TOKENS = ["halo1tokena", "halo1tokenb", "halo1tokenc"]
DENOMS = ["uatom", "uusd", "uaura", "ab", "c", "a", "bc", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2"]
ODD = ["HALO1TOKENA", "Halo1User", "ab", "halo 1", "halo1lp", "halo1pair", "halo1factory", "halo1router"]


def canon_bytes(a):
    return a.lower().encode()[::-1]


def c64(a):
    return base64.b64encode(canon_bytes(a)).decode()


def jb(x):
    return base64.b64encode(dump(x)).decode()


def dump(x):
    return json.dumps(x, separators=(",", ":"), sort_keys=True, ensure_ascii=False).encode()


def rkey(req):
    return dump(req).decode()


def dtext(n):
    t = "%d.%018d" % (n // W18, n % W18)
    return t.rstrip("0").rstrip(".")


def mapkey(ns, key):
    return len(ns).to_bytes(2, "big") + ns + key


def pair_bytes(*l):
    """compound key: all parts but the last carry their length"""
    o = b""
    for x in l[:-1]:
        o += len(x).to_bytes(2, "big") + x
    return o + l[-1]


class G:
    def __init__(self, seed, hints):
        self.r = random.Random(seed)
        self.seed = seed
        self.h = hints
        self.memo = {}
        self.store = {}
        self.spoil = self.r.random() < 0.3
        self.top = self.r.choice([10, 1000, 10 ** 6, 10 ** 12, 10 ** 18, 10 ** 24, 2 ** 64, 2 ** 100, U128])
        self.model = bool(hints.get("named")) and self.r.random() < 0.5

    # --- choices
    def p(self, x):
        return self.r.random() < x

    def bad(self, x=0.25):
        """spoil this aspect?"""
        return self.spoil and self.r.random() < x

    def pick(self, l):
        return self.r.choice(l)

    def num(self, name, hi=U128, lo=0):
        r = self.r
        named = self.h.get("named", {}).get(name)
        ints = self.h.get("ints")
        x = r.random()
        if named and (self.model or x < 0.3):
            v = r.choice(named)
            if r.random() < 0.1:
                v += r.choice([-1, 1, 2, 10])
        elif ints and x < 0.25:
            v = r.choice(ints) + r.choice([0, 0, 0, 1, -1])
        elif x < 0.4:
            v = r.choice([0, 1, 1, 2, 3, 5, 7, 10, 99, 100, 101, 333, 334, 500, 996, 997, 998, 999, 1000, 1001, 1003, 10 ** 6, 10 ** 6 + 1])
        elif x < 0.45:
            v = r.choice([10 ** 12, 10 ** 18 - 1, 10 ** 18, 10 ** 18 + 1, 2 ** 64 - 1, 2 ** 64, 2 ** 96, 2 ** 127, U128 - 1, U128])
        elif x < 0.7:
            v = r.randrange(0, min(self.top, hi) + 1)
        else:
            e = r.randrange(1, max(2, min(self.top, hi).bit_length()))
            v = r.randrange(2 ** (e - 1), 2 ** e)
        v = abs(v)
        return v if lo <= v <= hi else lo + v % (hi - lo + 1)

    def near(self, x, hi=U128):
        return min(hi, max(0, x + self.r.choice([0, 0, 0, 1, -1, 1, -1, 2, -2, 10, -10])))

    def text(self, l):
        t = self.h.get("strs")
        if t and self.p(0.1):
            return self.pick(t)
        return self.pick(l)

    def person(self):
        if self.bad(0.15):
            return self.pick(ODD)
        return self.text(PEOPLE)

    def asset(self):
        if self.p(0.5):
            return ("token", self.pick(TOKENS) if not self.bad(0.15) else self.pick(ODD))
        return ("native", self.text(DENOMS))

    def twist(self, i):
        """an asset that differs from i by little: the case of its letters, a blank, one letter more or less, the other kind"""
        k, s = i
        o = [s.upper(), s.capitalize(), s.swapcase(), s + " ", s + "a", s[:-1], s[::-1]]
        return (k, self.pick(o)) if k == "native" else self.pick([(k, s.upper()), (k, s[:-1] + "x"), ("native", s), ("native", s[::-1])])

    def two(self, same=0.03):
        a = self.asset()
        while True:
            b = self.asset()
            if b != a or self.p(same):
                return [a, b]

    def dec(self, hi=255):
        return self.pick([0, 1, 2, 6, 6, 6, 8, 9, 17, 18, 18, 19, 30, 39, 255])

    def requirements(self, who=None, d=None):
        w = [self.pick(PEOPLE + ["halo1dave", "halo1erin"]) for _ in range(self.r.randrange(0, 4))]
        if who and self.p(0.6):
            w.insert(self.r.randrange(0, len(w) + 1), who)
        m = [str(self.num("minimum") if d is None or self.p(0.2) else (self.near(x) if self.p(0.4) else self.r.randrange(0, x + 1))) for x in (d or (0, 0))]
        return {"whitelist": w, "first_asset_minimum": m[0], "second_asset_minimum": m[1]}

    def opt(self, f, x=0.5):
        return f() if self.p(x) else None

    # --- answers of the chain and of other contracts
    def preset(self, req, ans):
        self.memo[rkey(req)] = ans

    def answer(self, key):
        if key not in self.memo:
            r0 = self.r
            self.r = random.Random("%s|%s" % (self.seed, key))
            self.memo[key] = None if self.r.random() < 0.03 else self.reply(json.loads(key))
            self.r = r0
        return self.memo[key]

    def reply(self, q):
        try:
            if "bank" in q:
                b = q["bank"]["balance"]
                return {"amount": {"denom": b["denom"], "amount": str(self.num("balance"))}}
            s = q["wasm"]["smart"]
            (k, m), = s["msg"].items()
        except (KeyError, ValueError, TypeError, AttributeError):
            return None
        n = lambda x: str(self.num(x))
        if k == "balance":
            return {"balance": n("balance")}
        if k == "token_info":
            return {"name": "token", "symbol": "TOK", "decimals": self.dec(), "total_supply": n("total_supply")}
        if k == "minter":
            return {"minter": self.person(), "cap": None}
        if k == "pair":
            two = m.get("asset_infos") or [inf(x) for x in self.two()]
            return {"asset_infos": two, "contract_addr": self.pick(["halo1pair", "halo1pair2", "halo1pair3", "HALO1PAIR2"] if self.p(0.9) else ODD),
                    "liquidity_token": self.pick(["halo1lp", "halo1lp2", "halo1lp3"]) if self.p(0.95) else self.pick(ODD), "asset_decimals": [self.dec(), self.dec()],
                    "requirements": self.requirements()}
        if k == "simulation":
            return {"return_amount": n("return_amount"), "spread_amount": n("spread_amount"), "commission_amount": n("commission_amount")}
        if k == "reverse_simulation":
            return {"offer_amount": n("offer_amount"), "spread_amount": n("spread_amount"), "commission_amount": n("commission_amount")}
        if k == "native_token_decimals":
            return {"decimals": self.dec()}
        return None

    # --- pieces
    def balance(self, i, who, x):
        if i[0] == "token":
            self.preset({"wasm": {"smart": {"contract_addr": i[1], "msg": {"balance": {"address": who}}}}}, {"balance": str(x)})
        else:
            self.preset({"bank": {"balance": {"address": who, "denom": i[1]}}}, {"amount": {"denom": i[1], "amount": str(x)}})

    def supply(self, lp, x):
        self.preset({"wasm": {"smart": {"contract_addr": lp, "msg": {"token_info": {}}}}}, {"name": "lp", "symbol": "uLP", "decimals": 6, "total_supply": str(x)})

    def item(self, ns, x):
        if not self.bad(0.04):
            self.store[ns] = dump(x)

    def map(self, ns, key, x):
        self.store[mapkey(ns, key)] = dump(x)

    def out(self, contract, entry, msg, sender="halo1user", funds=(), me="halo1pair"):
        return {"contract": contract, "entry": entry, "msg": msg, "g": self, "storage": dict(self.store),
                "env": {"block": {"height": 12345, "time": "1571797419879305533", "chain_id": "x"}, "transaction": {"index": 3}, "contract": {"address": me}},
                "info": {"sender": sender, "funds": [{"denom": d, "amount": str(a)} for d, a in funds]}}


def inf(i):
    return {"token": {"contract_addr": i[1]}} if i[0] == "token" else {"native_token": {"denom": i[1]}}


def raw(i):
    return {"token": {"contract_addr": c64(i[1])}} if i[0] == "token" else {"native_token": {"denom": i[1]}}


def rec_pair(g, infos, me="halo1pair", lp="halo1lp", req=None, decs=None):
    return {"asset_infos": [raw(i) for i in infos], "contract_addr": c64(me), "liquidity_token": c64(lp), "asset_decimals": decs or [g.dec(), g.dec()],
            "requirements": req or g.requirements()}


def hook_msg(g, h):
    if g.bad(0.1):
        return g.pick(["", base64.b64encode(b"{}").decode(), jb({"swop": {}}), jb("swap")])
    return jb(h)


# ---------------------------------------------------------------- pair
def low(i):
    return ("token", i[1].lower()) if i[0] == "token" else i


def pair_receive(g):
    me, lp = "halo1pair", "halo1lp"
    infos = [low(i) for i in g.two()]
    if g.h.get("kind") == "withdraw" or (g.h.get("kind") is None and g.p(0.4)):
        R = [g.num("balance"), g.num("balance")]
        sup = g.num("total_supply")
        n = sup if g.p(0.1) else g.num("amount") if g.p(0.2) else g.r.randrange(0, sup + 1)
        for i, x in zip(infos, R):
            g.balance(i, me, x)
        g.supply(lp, sup)
        g.item(b"pair_info", rec_pair(g, infos, lp=lp))
        sender = lp if not g.bad() else g.pick(TOKENS + PEOPLE)
        return g.out("pair", "execute", {"receive": {"sender": g.person(), "amount": str(n), "msg": hook_msg(g, {"withdraw_liquidity": {}})}}, sender)
    i = g.r.randrange(2)
    if g.p(0.9):
        infos[i] = ("token", g.pick(TOKENS))
        if infos[i] == infos[1 - i]:
            infos[1 - i] = ("native", g.pick(DENOMS))
    X, Y, a = g.num("X"), g.num("Y"), g.num("amount")
    if g.p(0.15):
        X, Y = g.pick([(1, 1), (1, 2), (0, 0), (0, 5), (5, 0), (W18 + 1, 2), (2, W18), (1, W18)])
    if g.p(0.3) and X:
        a = g.pick([0, 1, X, 2 * X, X // 2, X // 10, X // 1000]) % (U128 + 1)
    if X + a > U128:
        X = U128 - a
    bal = X + a if not g.bad(0.1) else g.num("balance")
    g.balance(infos[1 - i], me, Y)
    g.balance(infos[i], me, bal)
    decs = [g.dec(), g.dec()]
    if g.p(0.6):
        decs = g.pick([[6, 6], [18, 18], [6, 18], [18, 6], [6, 7], [0, 6]])
    sw = {"belief_price": None, "max_spread": None, "to": g.opt(g.person)}
    gross = a * Y // (X + a) if X + a else 0
    ret = gross - gross * 3 // 1000
    full = a * (Y * W18 // X) // W18 if X else 0
    if g.p(0.6):
        b = g.num("belief_price")
        if g.p(0.7) and ret:
            b = g.near(a * W18 * 10 ** max(0, decs[1 - i] - decs[i]) // max(1, ret * 10 ** max(0, decs[i] - decs[1 - i]))) if max(decs) < 60 else b
            if g.p(0.4):
                b = b * g.pick([90, 95, 99, 100, 101, 105, 110]) // 100
        if g.p(0.7):
            sw["belief_price"] = dtext(min(b, U128))
        mx = g.num("max_spread", W18)
        if ret and full and g.p(0.5):
            mx = g.near((full - gross) * W18 // max(1, ret + full - gross))
        elif g.p(0.5):
            mx = g.pick([0, 1, W18 // 1000, W18 // 200, W18 // 100, W18 // 10, W18 // 2, W18, W18 + 1, 2 * W18])
        if g.p(0.85):
            sw["max_spread"] = dtext(mx)
        if g.p(0.15):
            del sw[g.pick(["belief_price", "max_spread", "to"])]
    g.supply(lp, g.num("total_supply"))
    g.item(b"pair_info", rec_pair(g, infos, lp=lp, decs=decs))
    sender = infos[i][1] if not g.bad() else g.pick([lp] + TOKENS + PEOPLE)
    return g.out("pair", "execute", {"receive": {"sender": g.person(), "amount": str(a), "msg": hook_msg(g, {"swap": sw})}}, sender)


def pair_provide(g):
    me, lp = "halo1pair", "halo1lp"
    infos = [low(i) for i in g.two()]
    d = [g.num("amount"), g.num("amount")]
    sup = 0 if g.p(0.35) else g.num("total_supply", lo=1)
    if sup and g.p(0.5):
        # deposits near the proportion
        r = [g.num("X", lo=1), g.num("X", lo=1)]
        k = g.r.randrange(1, 2000)
        d = [min(U128, g.near(x * k // 1000)) for x in r]
    else:
        r = [g.num("X"), g.num("X")] if not g.p(0.2) or not sup else [g.num("X", lo=1), g.num("X", lo=1)]
        if not sup and g.p(0.5):
            r = [0, 0]
        if sup and not g.p(0.1):
            r = [max(1, x) for x in r]
    if not g.p(0.1):
        d = [max(1, x) for x in d]
    for k in (0, 1):
        if infos[k][0] == "native" and r[k] + d[k] > U128:
            r[k] = U128 - d[k]
        g.balance(infos[k], me, r[k] + (d[k] if infos[k][0] == "native" and not g.bad(0.05) else 0))
    g.supply(lp, sup)
    who = g.text(PEOPLE)
    g.item(b"pair_info", rec_pair(g, infos, lp=lp, req=g.requirements(who, d)))
    named = list(infos)
    if g.bad(0.2):
        k = g.r.randrange(2)
        named[k] = g.twist(infos[k]) if g.p(0.5) else low(g.asset())
    order = [0, 1] if g.p(0.6) else [1, 0]
    assets = [{"info": inf(named[k]), "amount": str(d[k])} for k in order]
    funds = [(infos[k][1], d[k]) for k in (0, 1) if infos[k][0] == "native" and (d[k] or g.p(0.5))]
    if named != infos and g.p(0.7):
        # the coins of the assets as named
        funds = [(named[k][1], d[k]) for k in (0, 1) if named[k][0] == "native" and d[k]]
    if g.bad(0.4):
        if funds and g.p(0.7):
            k = g.r.randrange(len(funds))
            funds[k] = (funds[k][0], max(0, funds[k][1] + g.pick([-1, 1, 100]))) if g.p(0.6) else (g.pick(DENOMS), funds[k][1])
        elif funds:
            funds.pop()
    if g.p(0.1):
        funds.append((g.pick(DENOMS), g.num("amount", lo=1)))
    seen, f2 = set(), []
    for x in funds:
        if x[0] not in seen:
            seen.add(x[0])
            f2.append(x)
    tol = None
    if g.p(0.5):
        tol = g.num("slippage_tolerance", W18)
        if g.p(0.7) and min(d) and min(r):
            # the tolerance at which the looser comparison turns
            f = lambda x, y: x * W18 // y
            a = [(f(r[0], r[1]), f(d[0], d[1])), (f(r[1], r[0]), f(d[1], d[0]))]
            c = [W18 - y * W18 // x for y, x in a if x]
            tol = g.near(max([x for x in c] + [0]))
        elif g.p(0.5):
            tol = g.pick([0, 1, W18 // 1000, W18 // 100, W18 // 10, W18 // 2, W18 - 1, W18, W18 + 1])
        tol = dtext(max(0, tol))
    return g.out("pair", "execute", {"provide_liquidity": {"assets": assets, "slippage_tolerance": tol, "receiver": g.opt(g.person, 0.3)}}, who, f2)


def pair_instantiate(g):
    if g.p(0.1):
        g.item(b"pair_info", rec_pair(g, g.two()))
    return g.out("pair", "instantiate", {"asset_infos": [inf(i) for i in g.two()], "token_code_id": g.num("code", 2 ** 64 - 1), "asset_decimals": [g.dec(), g.dec()],
                                         "requirements": g.requirements()}, g.pick(["halo1factory", "halo1user"]))


def reply_msg(g, addr):
    a = addr.encode()
    data = base64.b64encode(b"\x0a" + bytes([len(a)]) + a).decode()
    if g.bad(0.3):
        data = g.pick([None, "", base64.b64encode(b"\x0a\x20abc").decode(), base64.b64encode(b"\x12\x03abc").decode()])
    ok = {"ok": {"events": [], "data": data}}
    return {"id": 1 if not g.p(0.1) else g.num("id", 2 ** 64 - 1), "result": ok if not g.bad(0.1) else {"error": "no"}}


def pair_reply(g):
    g.item(b"pair_info", dict(rec_pair(g, [low(i) for i in g.two()]), liquidity_token="" if g.p(0.9) else c64("halo1lp9")))
    return g.out("pair", "reply", reply_msg(g, g.pick(["halo1lp", "halo1lp2"]) if not g.bad() else g.pick(ODD)))


def migrate(contract, name):
    def f(g):
        if g.p(0.8):
            g.store[b"contract_info"] = dump({"contract": g.pick([name, "crates.io:other"]), "version": g.pick(["0.1.0", "1.0.0", "0.0.9", "9.9.9"])})
        if contract == "pair":
            g.item(b"pair_info", rec_pair(g, [low(i) for i in g.two()]))
        elif contract == "factory":
            g.item(b"config", fcfg(g))
            some_pairs(g, 3)
            t = [low(i) for i in g.two(0)]
            if g.p(0.7):
                g.item(b"tmp_pair_info", {"pair_key": list(key_of(*t)), "asset_infos": [raw(i) for i in t], "asset_decimals": [g.dec(), g.dec()]})
            for _ in range(g.r.randrange(0, 4)):
                g.map(b"allow_native_token", g.text(DENOMS).encode(), g.dec())
        else:
            g.item(b"config", {"halo_factory": c64("halo1factory")})
        return g.out(contract, "migrate", {}, me="halo1" + contract)
    return f


def pair_query(g):
    me, lp = "halo1pair", "halo1lp"
    infos = [low(i) for i in g.two()]
    R = [g.num("X"), g.num("Y")]
    for i, x in zip(infos, R):
        g.balance(i, me, x)
    g.supply(lp, g.num("total_supply"))
    g.item(b"pair_info", rec_pair(g, infos, lp=lp))
    k = g.r.choice(["pair", "pool", "simulation", "simulation", "reverse_simulation", "reverse_simulation"])
    j = g.r.randrange(2)
    i = infos[j] if not g.bad() else g.twist(infos[j]) if g.p(0.4) else g.asset()
    amt = g.num("amount")
    if k == "reverse_simulation" and g.p(0.6):
        Y = R[j]
        amt = g.near(Y * 997 // 1000) if g.p(0.4) else g.r.randrange(0, Y + 1)
    a = {"info": inf(i), "amount": str(amt)}
    m = {"simulation": {"offer_asset": a}, "reverse_simulation": {"ask_asset": a}}.get(k, {})
    return g.out("pair", "query", {k: m})


# ---------------------------------------------------------------- factory
def fcfg(g, owner="halo1owner"):
    return {"owner": c64(owner), "pair_code_id": g.num("pair_code_id", 2 ** 64 - 1), "token_code_id": g.num("token_code_id", 2 ** 64 - 1)}


def rawbytes(i):
    return canon_bytes(i[1]) if i[0] == "token" else i[1].encode()


def key_of(a, b):
    x, y = sorted([rawbytes(a), rawbytes(b)])
    return x + y


def some_pairs(g, n):
    l = []
    for k in range(n):
        t = [low(i) for i in g.two(0)]
        if rawbytes(t[0]) == rawbytes(t[1]):
            continue
        g.map(b"pair_info", key_of(*t), rec_pair(g, t, me="halo1pair%d" % k, lp="halo1lp%d" % k))
        l.append(t)
    return l


def factory_instantiate(g):
    return g.out("factory", "instantiate", {"pair_code_id": g.num("pair_code_id", 2 ** 64 - 1), "token_code_id": g.num("token_code_id", 2 ** 64 - 1)}, g.person(), me="halo1factory")


def factory_settings(g):
    owner = "halo1owner"
    g.item(b"config", fcfg(g))
    if g.p(0.5):
        some_pairs(g, 2)
    sender = owner if not g.bad(0.4) else g.pick(PEOPLE + ["halo1factory"])
    k = g.r.randrange(3)
    code = lambda: g.num("code_id", 2 ** 64 - 1)
    if k == 0:
        m = {"update_config": {"owner": g.opt(g.person), "token_code_id": g.opt(code), "pair_code_id": g.opt(code)}}
    elif k == 1:
        d = g.text(DENOMS)
        if g.p(0.5):
            g.map(b"allow_native_token", d.encode(), g.dec())
        g.balance(("native", d), "halo1factory", 0 if g.p(0.2) else g.num("balance"))
        m = {"add_native_token_decimals": {"denom": d, "decimals": g.dec()}}
    else:
        m = {"migrate_pair": {"contract": g.pick(["halo1pair", "halo1pair2", "HALO1PAIR", "x"]), "code_id": g.opt(code)}}
    return g.out("factory", "execute", m, sender, me="halo1factory")


def factory_create(g):
    g.item(b"config", fcfg(g))
    l = some_pairs(g, g.r.randrange(0, 3))
    t = g.two(0.1)
    if l and g.p(0.15):
        t = list(g.pick(l))
        if g.p(0.5):
            t.reverse()
    if g.p(0.05):
        a = g.pick(TOKENS)
        t = [("token", a), ("token", a.upper())]
    if g.p(0.05):
        a = g.pick(TOKENS)
        t = [("token", a), ("native", a[::-1])]
    if g.p(0.1):
        g.item(b"tmp_pair_info", {"pair_key": [1, 2], "asset_infos": [raw(i) for i in g.two()], "asset_decimals": [1, 2]})
    who = g.person()
    funds = [] if g.p(0.8) else [(g.pick(DENOMS), g.num("amount", lo=1))]
    return g.out("factory", "execute", {"create_pair": {"asset_infos": [inf(i) for i in t], "requirements": g.requirements(who)}}, who, funds, me="halo1factory")


def factory_reply(g):
    g.item(b"config", fcfg(g))
    some_pairs(g, g.r.randrange(0, 3))
    t = [low(i) for i in g.two(0)]
    g.item(b"tmp_pair_info", {"pair_key": list(key_of(*t)), "asset_infos": [raw(i) for i in t], "asset_decimals": [g.dec(), g.dec()]})
    return g.out("factory", "reply", reply_msg(g, g.pick(["halo1pair7", "halo1pair8"]) if not g.bad() else g.pick(ODD)), me="halo1factory")


def factory_query(g):
    g.item(b"config", fcfg(g))
    l = some_pairs(g, g.r.randrange(0, 4))
    k = g.r.randrange(3)
    if k == 0:
        m = {"config": {}}
    elif k == 1:
        d = g.text(DENOMS)
        if g.p(0.8):
            g.map(b"allow_native_token", d.encode(), g.dec())
        if g.p(0.2):
            d = g.twist(("native", d))[1]
        m = {"native_token_decimals": {"denom": d}}
    else:
        t = list(g.pick(l)) if l and g.p(0.8) else g.two(0.1)
        if g.p(0.5):
            t.reverse()
        if g.p(0.1):
            t = [(x[0], x[1].upper()) if x[0] == "token" else x for x in t]
        if g.p(0.1):
            t[0] = g.twist(t[0])
        m = {"pair": {"asset_infos": [inf(i) for i in t]}}
    return g.out("factory", "query", m, me="halo1factory")


def factory_list(g):
    g.item(b"config", fcfg(g))
    n = g.pick([0, 1, 2, 3, 5, 9, 10, 11, 12, 30, 31, 40])
    l = []
    for k in range(n):
        t = [g.pick([("token", "halo1tok%s" % "abcdefghijklmnop"[g.r.randrange(16)]), ("native", "u%s" % "abcdefghijklmnop"[g.r.randrange(16)]),
                     ("native", g.pick(DENOMS)), ("token", g.pick(TOKENS))]) for _ in (0, 1)]
        if rawbytes(t[0]) == rawbytes(t[1]):
            continue
        g.map(b"pair_info", key_of(*t), rec_pair(g, t, me="halo1pair%d" % k, lp="halo1lp%d" % k))
        l.append(t)
    if g.p(0.3):
        g.map(b"allow_native_token", b"uatom", 6)
    after = None
    if g.p(0.6):
        after = list(g.pick(l)) if l and g.p(0.8) else g.two(0.1)
        if g.p(0.5):
            after.reverse()
        after = [inf(i) for i in after]
    return g.out("factory", "query", {"pairs": {"start_after": after, "limit": g.pick([None, None, 0, 1, 2, 3, 5, 9, 10, 11, 29, 30, 31, 32, 100, 255, 256, 257, 266, 512, 65535, 65536, 65537, 2 ** 31, 2 ** 32 - 1])}}, me="halo1factory")


# ---------------------------------------------------------------- router
def ops_of(g):
    n = g.pick([0, 1, 1, 2, 2, 3, 3, 4, 5])
    if g.bad(0.1):
        n = 0
    o = []
    a = g.asset()
    for _ in range(n):
        b = g.asset()
        while b == a and not g.p(0.05):
            b = g.asset()
        o.append({"halo_swap": {"offer_asset_info": inf(a), "ask_asset_info": inf(b)}})
        a = b if not g.p(0.12) else g.asset()
    if o and g.p(0.1):
        g.r.shuffle(o)
    return o


def router_cfg(g):
    g.item(b"config", {"halo_factory": c64("halo1factory")})


def router_start(g):
    router_cfg(g)
    me = "halo1router"
    b = {"operations": ops_of(g), "minimum_receive": g.opt(lambda: str(g.num("minimum_receive")), 0.6), "to": g.opt(g.person)}
    who = g.person()
    if g.p(0.5):
        return g.out("router", "execute", {"execute_swap_operations": b}, who, [] if g.p(0.5) else [(g.pick(DENOMS), g.num("amount", lo=1))], me=me)
    return g.out("router", "execute", {"receive": {"sender": who, "amount": str(g.num("amount")), "msg": hook_msg(g, {"execute_swap_operations": b})}}, g.pick(TOKENS), me=me)


def router_hop(g):
    router_cfg(g)
    a, b = g.two()
    return g.out("router", "execute", {"execute_swap_operation": {"operation": {"halo_swap": {"offer_asset_info": inf(a), "ask_asset_info": inf(b)}}, "to": g.opt(g.person)}},
                 "halo1router" if not g.bad(0.4) else g.pick(PEOPLE + TOKENS), me="halo1router")


def router_minimum(g):
    router_cfg(g)
    i = g.asset()
    who = g.person()
    prev, mn = g.num("prev_balance"), g.num("minimum_receive")
    now = g.near(min(U128, prev + mn)) if g.p(0.7) else g.num("balance")
    g.balance(i, who, now)
    return g.out("router", "execute", {"assert_minimum_receive": {"asset_info": inf(i), "prev_balance": str(prev), "minimum_receive": str(mn), "receiver": who}},
                 g.pick(PEOPLE + ["halo1router"]), me="halo1router")


def router_quote(kind):
    def f(g):
        router_cfg(g)
        n = str(g.num("amount"))
        o = ops_of(g)
        m = {"simulate_swap_operations": {"offer_amount": n, "operations": o}} if kind == 0 else {"reverse_simulate_swap_operations": {"ask_amount": n, "operations": o}}
        return g.out("router", "query", m, me="halo1router")
    return f


def router_config(g):
    router_cfg(g)
    return g.out("router", "query", {"config": {}}, me="halo1router")


def router_instantiate(g):
    return g.out("router", "instantiate", {"halo_factory": g.pick(["halo1factory", "HALO1FACTORY", "ab", "halo1x"])}, me="halo1router")


# ---------------------------------------------------------------- token
def token_instantiate(g):
    name = "n" * g.pick([2, 3, 4, 10, 49, 50, 51]) if not g.p(0.1) else g.pick(["", "\u00e9\u00e9", "\u00e9" * 25, "\u00e9" * 26])
    if g.p(0.2):
        # blanks at either end, which count towards the length like any other character
        b = g.pick([" ", "  ", "\n", "\t", " " * 48, " " * 50])
        name = g.pick([name + b, b + name, b + name + b, b, "n" * 50 + b, "n" + b, "nn" + b, "\u00e9" * 24 + b])
    alpha = "abzAZ-mM"
    sym = "".join(g.pick(alpha) for _ in range(g.pick([3, 3, 4, 5, 8, 11, 12, 12])))
    if g.p(0.15):
        sym = "".join(g.pick(alpha) for _ in range(g.pick([0, 1, 2, 13, 14])))
    if g.p(0.3) and sym:
        k = g.r.randrange(len(sym))
        sym = sym[:k] + g.pick(list("@[`{0 ,._/:+") + ["\u00e9"]) + sym[k + 1:]
    bal = [{"address": g.pick(PEOPLE + TOKENS + ["halo1x%d" % g.r.randrange(9)]), "amount": str(g.num("amount", 2 ** 120 if g.p(0.9) else U128))} for _ in range(g.pick([0, 0, 1, 2, 3, 4]))]
    if not g.bad(0.3):
        seen = {}
        for x in bal:
            seen[x["address"]] = x
        bal = list(seen.values())
    if g.bad(0.2) and bal:
        bal[g.r.randrange(len(bal))]["address"] = g.pick(ODD)
    tot = sum(int(x["amount"]) for x in bal)
    mint = None
    if g.p(0.7):
        mint = {"minter": g.person(), "cap": g.opt(lambda: str(g.near(min(tot, U128)) if g.p(0.7) else g.num("cap")))}
    d = g.pick([0, 1, 6, 6, 8, 17, 18, 18]) if g.p(0.85) else g.pick([19, 20, 100, 255])
    return g.out("token", "instantiate", {"name": name, "symbol": sym, "decimals": d, "initial_balances": bal, "mint": mint}, g.person(), me="halo1lp")


def token_state(g):
    tot = 0
    for w in PEOPLE + ["halo1pair"]:
        if g.p(0.8):
            x = g.num("balance", 2 ** 125)
            tot += x
            g.map(b"balance", w.encode(), str(x))
        for v in PEOPLE + ["halo1pair"]:
            if v != w and g.p(0.5):
                al = {"allowance": str(g.num("allowance")), "expires": g.pick([{"never": {}}, {"never": {}}, {"at_height": 12344}, {"at_height": 12345}, {"at_height": 12346}])}
                g.map(b"allowance", pair_bytes(w.encode(), v.encode()), al)
                g.map(b"allowance_spender", pair_bytes(v.encode(), w.encode()), al)
    if g.p(0.15):
        # more accounts and allowances than a page holds
        for k in range(g.pick([9, 10, 11, 31, 40])):
            v = "halo1more%02d" % k
            tot += k
            g.map(b"balance", v.encode(), str(k))
            for a, b in (("halo1user", v), (v, "halo1user")):
                al = {"allowance": str(k), "expires": {"never": {}}}
                g.map(b"allowance", pair_bytes(a.encode(), b.encode()), al)
                g.map(b"allowance_spender", pair_bytes(b.encode(), a.encode()), al)
    mint = None if g.p(0.15) else {"minter": g.pick(["halo1pair", "halo1user"]), "cap": g.opt(lambda: str(g.near(tot + g.pick([0, 10, 1000]))), 0.5)}
    g.item(b"token_info", {"name": "lp token", "symbol": "uLP", "decimals": 6, "total_supply": str(tot), "mint": mint})
    if g.p(0.4):
        g.item(b"marketing_info", {"project": "p", "description": "d", "logo": None, "marketing": g.pick(["halo1user", "halo1bob"])})
    if g.p(0.2):
        g.item(b"logo", {"url": "http://x"})


def token_execute(g):
    token_state(g)
    w = lambda: g.pick(PEOPLE + ["halo1pair"]) if not g.bad(0.15) else g.pick(ODD)
    n = lambda: str(0 if g.p(0.05) else g.num("amount", 2 ** 125))
    hook = lambda: jb({"swap": {}})
    ex = lambda: g.opt(lambda: g.pick([{"never": {}}, {"at_height": 12346}, {"at_height": 1}, {"at_time": "1571797419879305534"}]))
    k = g.r.randrange(13)
    m = [lambda: {"transfer": {"recipient": w(), "amount": n()}}, lambda: {"burn": {"amount": n()}}, lambda: {"send": {"contract": w(), "amount": n(), "msg": hook()}},
         lambda: {"increase_allowance": {"spender": w(), "amount": n(), "expires": ex()}}, lambda: {"decrease_allowance": {"spender": w(), "amount": n(), "expires": ex()}},
         lambda: {"transfer_from": {"owner": w(), "recipient": w(), "amount": n()}}, lambda: {"send_from": {"owner": w(), "contract": w(), "amount": n(), "msg": hook()}},
         lambda: {"burn_from": {"owner": w(), "amount": n()}}, lambda: {"mint": {"recipient": w(), "amount": n()}}, lambda: {"mint": {"recipient": w(), "amount": n()}},
         lambda: {"update_minter": {"new_minter": g.opt(w)}}, lambda: {"update_marketing": {"project": g.opt(lambda: "q"), "description": g.opt(lambda: ""), "marketing": g.opt(w)}},
         lambda: {"upload_logo": {"url": "http://y"}}][k]()
    return g.out("token", "execute", m, g.pick(PEOPLE + ["halo1pair"]), me="halo1lp")


def token_query(g):
    token_state(g)
    w = lambda: g.pick(PEOPLE + ["halo1pair"]) if not g.bad(0.15) else g.pick(ODD)
    lim = lambda: g.pick([None, None, 0, 1, 2, 10, 11, 30, 31, 32, 256, 257, 2 ** 32 - 1])
    k = g.r.randrange(9)
    m = [lambda: {"balance": {"address": w()}}, lambda: {"token_info": {}}, lambda: {"minter": {}}, lambda: {"allowance": {"owner": w(), "spender": w()}},
         lambda: {"all_allowances": {"owner": w(), "start_after": g.opt(w, 0.3), "limit": lim()}}, lambda: {"all_spender_allowances": {"spender": w(), "start_after": g.opt(w, 0.3), "limit": lim()}},
         lambda: {"all_accounts": {"start_after": g.opt(w, 0.3), "limit": lim()}}, lambda: {"marketing_info": {}}, lambda: {"download_logo": {}}][k]()
    return g.out("token", "query", m, me="halo1lp")


GENS = {
    "pair.receive": pair_receive, "pair.provide": pair_provide, "pair.worth": pair_provide, "pair.instantiate": pair_instantiate, "pair.reply": pair_reply, "pair.query": pair_query,
    "pair.migrate": migrate("pair", "crates.io:halo-pair"), "factory.migrate": migrate("factory", "crates.io:halo-factory"), "router.migrate": migrate("router", "crates.io:halo-router"),
    "factory.instantiate": factory_instantiate, "factory.settings": factory_settings, "factory.create_pair": factory_create, "factory.reply": factory_reply,
    "factory.query": factory_query, "factory.list": factory_list,
    "router.start": router_start, "router.hop": router_hop, "router.minimum": router_minimum, "router.quote": router_quote(0), "router.reverse_quote": router_quote(1),
    "router.config": router_config, "router.instantiate": router_instantiate,
    "token.instantiate": token_instantiate, "token.execute": token_execute, "token.query": token_query,
}
KINDS = {"C09": "swap", "C08": "withdraw", "C01": "swap", "C02": "swap", "C03": "swap", "C04": "swap"}
