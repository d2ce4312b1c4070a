"""Specification of the factory contract (C11-C14, C22)."""
from speclib import *
from entry import *
from specs_pair import human_info, info_of, info_tree, info_raw_tree, same_info, balance, token_info, set_version, migrate_scene, REC

CFG = "halo_factory::state::Config"
TMP = "halo_factory::state::TmpPairInfo"
PAIRS = b"pair_info"
NATIVE = b"allow_native_token"
SCENES = []


def bytes_tree(x):
    """a byte vector in JSON"""
    return [n(b) for b in x] if isinstance(x, bytes) else ("raw", app("bytesjson", (x,), "S"))


def raw_name(S, i):
    """the bytes that name an asset in a key"""
    return S.canon(i[1]) if i[0] == "token" else i[1]


def pair_key(S, a, b):
    """the bytes naming the two assets, the smaller first"""
    return cat(a, b) if S.br(sle(a, b)) else cat(b, a)


# ---------------------------------------------------------------- settings
def cfg_tree(owner, pair_code, token_code):
    return {"owner": ("s", b64(owner)), "pair_code_id": n(pair_code), "token_code_id": n(token_code)}


def instantiate(S, a):
    m = a["msg"]
    return Out([], writes=[set_version(S, b"crates.io:halo-factory", "halo-factory"),
                           ("item", b"config", None, cfg_tree(S.canon(a["info"].sender.txt()), m.pair_code_id.v, m.token_code_id.v))])


def owner_only(S, a):
    c = S.item(b"config", CFG)
    S.need(seq(S.canon(a["info"].sender.txt(), "auth"), c.owner.txt()), "auth")
    return c


def update_config(S, a):
    m = a["msg"]
    c = owner_only(S, a)
    owner, pc, tc = c.owner.txt(), c.pair_code_id.v, c.token_code_id.v
    o = m.owner.opt()
    if o is not None:
        S.validate(o.txt(), "owner")
        owner = S.canon(o.txt(), "owner")
    x = m.pair_code_id.opt()
    pc = pc if x is None else x.v
    x = m.token_code_id.opt()
    tc = tc if x is None else x.v
    return Out([], writes=[("item", b"config", None, cfg_tree(owner, pc, tc))])


def add_decimals(S, a):
    m = a["msg"]
    owner_only(S, a)
    b = balance(S, ("native", m.denom.txt()), a["env"].contract.address.txt())
    S.need(gt(b, 0), "balance")
    return Out([], writes=[("map", NATIVE, m.denom.txt(), n(m.decimals.v))])


def migrate_pair(S, a):
    m = a["msg"]
    c = owner_only(S, a)
    x = m.code_id.opt()
    code = c.pair_code_id.v if x is None else x.v
    return Out([plain({"wasm": {"migrate": {"contract_addr": s(m.contract.txt()), "new_code_id": n(code), "msg": jbin({})}}})])


def j_settings(q, cx):
    k = cx.S.info.get("kind")
    if k:
        q.scene = {"UpdateConfig": "update_config", "AddNativeTokenDecimals": "add_native_decimals", "MigratePair": "migrate_pair"}[k]
    if acceptance(q, cx):
        writes(q, cx)
        messages(q, cx)
        q.require(nm(q, "no events or data"), cx.extra)


# ---------------------------------------------------------------- creation of a pair
def decimals_of(S, i, me):
    if i[0] == "token":
        return token_info(S, i[1]).decimals.v
    return S.smart(me, {"native_token_decimals": {"denom": s(i[1])}}, "haloswap::factory::NativeTokenDecimalsResponse").decimals.v


def create_pair(S, a):
    m, me = a["msg"], a["env"].contract.address.txt()
    c = S.item(b"config", CFG)
    infos = [info_of(S, m.asset_infos[k]) for k in (0, 1)]
    if same_info(S, infos[0], infos[1]):
        raise Reject("same")
    dec_ = [decimals_of(S, i, me) for i in infos]
    raw = [raw_name(S, i) for i in infos]
    if infos[0][0] == infos[1][0] and S.br(seq(raw[0], raw[1])):
        raise Reject("same")
    key = pair_key(S, raw[0], raw[1])
    if S.map(PAIRS, key, REC) is not None:
        raise Reject("exists")
    tmp = {"pair_key": bytes_tree(key), "asset_infos": [info_raw_tree(S, i) for i in infos], "asset_decimals": [n(x) for x in dec_]}
    inst = {"asset_infos": [info_tree(i) for i in infos], "token_code_id": n(c.token_code_id.v), "asset_decimals": [n(x) for x in dec_],
            "requirements": m.requirements.tree()}
    sub_ = {"id": n(1), "gas_limit": None, "reply_on": s(b"success"),
            "msg": {"wasm": {"instantiate": {"admin": s(me), "code_id": n(c.pair_code_id.v), "msg": jbin(inst), "funds": [], "label": s(b"pair")}}}}
    return Out([sub_], writes=[("item", b"tmp_pair_info", None, tmp)])


def tmp_parts(q, cx, keys):
    """the parts of the record kept until the pool reports back"""
    w = [x for x in cx.writes if x[0] == "item" and x[1] == b"tmp_pair_info"]
    q.require(nm(q, "one record kept"), len(w) == 1 and w[0][4] is not None, detail=short([x[:3] for x in cx.writes]))
    if len(w) == 1 and w[0][4] is not None:
        g, e = to_json(cx.I, w[0][3], w[0][4]), cx.out.writes[0][3]
        for k in keys:
            eq(q, cx, "kept." + k, g.get(k), e[k])


def j_create_c12(q, cx):
    q.scene = "create_pair"
    if not acceptance(q, cx, {"same", "exists", "addr"}):
        return
    tmp_parts(q, cx, ["pair_key", "asset_infos"])
    q.require(nm(q, "no other state change"), len(cx.writes) == 1, detail=short([w[:3] for w in cx.writes]))


def j_create_c13(q, cx):
    q.scene = "create_pair"
    if not acceptance(q, cx, {"query"}):
        return
    tmp_parts(q, cx, ["asset_decimals"])
    q.require(nm(q, "one message"), len(cx.msgs) == 1, detail=short(cx.msgs))
    if len(cx.msgs) == 1:
        g, e = get(cx.msgs[0], "msg", "wasm", "instantiate"), get(cx.out.messages[0], "msg", "wasm", "instantiate")
        q.require(nm(q, "creates a contract"), g is not None, detail=short(cx.msgs))
        if g is not None:
            for k in ("code_id", "admin", "funds"):
                eq(q, cx, "creation." + k, g[k], e[k])
            gi, ei = inner(g["msg"]), inner(e["msg"])
            q.require(nm(q, "creation message readable"), isinstance(gi, dict) and set(gi) == set(ei), detail=short(g))
            if isinstance(gi, dict) and set(gi) == set(ei):
                for k in sorted(ei):
                    eq(q, cx, "creation.msg." + k, gi[k], ei[k])
        for k in ("reply_on", "gas_limit"):
            eq(q, cx, k, cx.msgs[0][k], cx.out.messages[0][k])
    q.require(nm(q, "no events or data"), cx.extra)


EXEC = {"UpdateConfig": update_config, "AddNativeTokenDecimals": add_decimals, "MigratePair": migrate_pair, "CreatePair": create_pair}


def execute(S, a):
    k = a["msg"].kind()
    S.info["kind"] = k
    return EXEC[k](S, a)


ARGS = ["deps", "env", "info", "msg"]
SCENES.append(Scene("factory.instantiate", "halo_factory::contract::instantiate", ARGS, instantiate, {"C11": j_settings}))
SCENES.append(Scene("factory.settings", "halo_factory::contract::execute", ARGS, execute, {"C11": j_settings}, setup=lambda S, a: a["msg"].kind() != "CreatePair"))
SCENES.append(Scene("factory.create_pair", "halo_factory::contract::execute", ARGS, execute, {"C12": j_create_c12, "C13": j_create_c13},
                    setup=lambda S, a: a["msg"].kind() == "CreatePair"))
SCENES.append(migrate_scene("halo_factory::contract::migrate", b"crates.io:halo-factory", "halo-factory", "factory"))


# ---------------------------------------------------------------- the pool reports back
def reply(S, a):
    tmp = S.item(b"tmp_pair_info", TMP)
    r = a["msg"].result
    if r.kind() != "Ok":
        raise Reject("reply")
    d = r.f("0").data.opt()
    if d is None:
        raise Reject("reply")
    addr = S.reply_addr(d.txt())
    if addr is None:
        raise Reject("reply")
    info = S.smart(addr, {"pair": {}}, "haloswap::asset::PairInfo")
    rec = {"asset_infos": [tmp.asset_infos[k].tree() for k in (0, 1)], "contract_addr": ("s", b64(S.canon(addr, "reply"))),
           "liquidity_token": ("s", b64(S.canon(info.liquidity_token.txt(), "reply"))), "asset_decimals": [n(tmp.asset_decimals[k].v) for k in (0, 1)],
           "requirements": info.requirements.tree()}
    return Out([], writes=[("map", PAIRS, tmp.pair_key.txt(), rec)])


def j_reply(q, cx):
    if acceptance(q, cx):
        writes(q, cx)
        q.require(nm(q, "no messages"), cx.msgs == [], detail=short(cx.msgs))


SCENES.append(Scene("factory.reply", "halo_factory::contract::reply", ["deps", "env", "msg"], reply, {"C12": j_reply}))


# ---------------------------------------------------------------- queries
def pair_tree(S, rec):
    lp, me = S.human(rec.liquidity_token.txt()), S.human(rec.contract_addr.txt())
    return {"asset_infos": [info_tree(human_info(S, rec.asset_infos[k])) for k in (0, 1)], "contract_addr": s(me), "liquidity_token": s(lp),
            "asset_decimals": [n(rec.asset_decimals[k].v) for k in (0, 1)], "requirements": rec.requirements.tree()}


def query(S, a):
    m = a["msg"]
    k = m.kind()
    S.info["kind"] = k
    if k == "Config":
        c = S.item(b"config", CFG)
        return Out(data={"owner": s(S.human(c.owner.txt())), "pair_code_id": n(c.pair_code_id.v), "token_code_id": n(c.token_code_id.v)})
    if k == "NativeTokenDecimals":
        d = S.map(NATIVE, m.denom.txt(), S.prim("u8"))
        if d is None:
            raise Reject("unregistered")
        return Out(data={"decimals": n(d.v)})
    if k == "Pair":
        raw = [raw_name(S, info_of(S, m.asset_infos[j])) for j in (0, 1)]
        rec = S.map(PAIRS, pair_key(S, raw[0], raw[1]), REC)
        if rec is None:
            raise Reject("unregistered")
        return Out(data=pair_tree(S, rec))
    after = m.start_after.opt()
    lo = None
    if after is not None:
        raw = [raw_name(S, info_of(S, after[j])) for j in (0, 1)]
        lo = pair_key(S, raw[0], raw[1])
    lim = m.limit.opt()
    lim = 10 if lim is None else imin(lim.v, 30)
    ln, item = S.range(PAIRS, REC, lo)
    return Out(data={"pairs": S.collect(imin(lim, ln), lambda i: pair_tree(S, item(i)), "record")})


def j_query(kinds):
    def j(q, cx):
        k = cx.S.info.get("kind")
        if k not in kinds:
            return
        q.scene = "query." + k
        if not acceptance(q, cx):
            return
        q.require(nm(q, "answer readable"), isinstance(cx.data, dict), detail=short(getattr(cx, "raw", None)))
        if isinstance(cx.data, dict):
            q.require(nm(q, "answer fields"), set(cx.data) == set(cx.out.data), detail=short(cx.data))
            for f in sorted(cx.out.data):
                if f in cx.data:
                    eq(q, cx, "answer." + f, cx.data[f], cx.out.data[f])
    return j


SCENES.append(Scene("factory.query", "halo_factory::contract::query", ["deps", "env", "msg"], query,
                    {"C11": j_query({"Config"}), "C12": j_query({"Pair"}), "C13": j_query({"NativeTokenDecimals"})},
                    setup=lambda S, a: a["msg"].kind() != "Pairs"))
SCENES.append(Scene("factory.list", "halo_factory::contract::query", ["deps", "env", "msg"], query, {"C14": j_query({"Pairs"})},
                    setup=lambda S, a: a["msg"].kind() == "Pairs"))


def key_collision(W):
    """the real code, asked for a pair nobody registered, answers with another pair's entry (see known-findings.txt)"""
    from scenarios import G, rec_pair, key_of, inf
    import concrete
    g = G("finding", {})
    reg, ask = [("native", "ab"), ("native", "c")], [("native", "a"), ("native", "bc")]
    g.store = {}
    g.map(b"pair_info", key_of(*reg), rec_pair(g, reg, decs=[6, 6]))
    scn = g.out("factory", "query", {"pair": {"asset_infos": [inf(i) for i in ask]}}, me="halo1factory")
    R = concrete.Runner()
    r = concrete.run_batch(R, [scn])[0]
    R.close()
    if "ok" not in r:
        return None
    return dict(concrete.show(scn, r, [("C12: two different unordered pairs never share an entry", "asked for a and bc, got the entry of ab and c")], SCENES[0]), finding="pair-key-concatenation")


FINDINGS = [("C12", key_collision)]
