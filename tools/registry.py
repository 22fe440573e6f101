"""What each property's check consists of."""
import runner, scripts

def tensor(pid, checkops, wf="FALSE", frame="FALSE", refuse="FALSE", num=60, depth=50, tnum=500, tdepth=80):
    def corruptible(l):
        if not l.get("u") or l.get("st") != "ok" or l["op"] == "new":
            return False
        return all(u[1].get("t") not in ("0", None) and u[1].get("ck") == 1 and u[1].get("v") for u in l["u"]) and \
            (checkops == "AllOps" or l["op"] in GROUPS.get(checkops, ()) or wf == "TRUE" or frame == "TRUE")
    if wf == "TRUE":    # a stored block that its charges forbid
        def bad(l, rng):
            t = l["u"][0][1]
            if not t["b"]: return False
            t["b"].append(t["b"][-1]); return True
    elif frame == "TRUE":
        def bad(l, rng):
            l["u"].append([l["dst"] % 6 + 1, l["u"][0][1]]); return True
    else:
        bad = runner.num_corrupt(lambda p: len(p) == 5 and p[0] == "u" and p[2] == 1 and p[3] == "v")
    return dict(driver="drv_btensor",
                gen=dict(module="TensorGen", consts={"Profile": '"%s"' % pid}),
                trace=dict(module="TensorTrace", consts={"CheckOps": "<- " + checkops, "CheckWF": wf, "CheckFrame": frame, "CheckRefuse": refuse},
                           corruptible=corruptible, corrupt=bad),
                quick=dict(shards=8, num=num, depth=depth), thorough=dict(shards=64, num=tnum, depth=tdepth))

GROUPS = {
    "Elementwise": set("add add_ sub sub_ adds adds_ subs subs_ mul mul_ muls muls_ div div_ divs divs_ pow pow_ pows pows_ rdivs abs abs_ sqrt sqrt_ sum ge le less greater eq not_equal cmps".split()),
    "Contraction": {"tensordot", "bmm"},
    "Layout": set("t t_ permute permute_ transpose transpose_ reshape reshape_as reshape_over view squeeze squeeze_ squeezed squeezed_ put putd".split()),
    "ChargeOps": set("conj conj_only inverse inverse_ cvshift cvshift_ ncshift_ shiftsel_ setsel_ neutralsel neutralshape neutralshape_ shape_from shape_prod like".split()),
    "Conversion": set("new copy fromdense full full_like eye eye_like findrule item allclose setblock".split()),
}

def store(driver, gen, trace, quick, thorough, corruptible, corrupt, gconsts=None, tconsts=None, fixed=None):
    d = dict(driver=driver, gen=dict(module=gen, consts=gconsts or {}),
             trace=dict(module=trace, consts=tconsts or {}, corruptible=corruptible, corrupt=corrupt),
             quick=dict(zip(("shards", "num", "depth"), quick)), thorough=dict(zip(("shards", "num", "depth"), thorough)))
    if fixed: d["fixed"] = fixed
    return d

CHARGE = store("drv_charge", "ChargeGen", "ChargeTrace", (8, 80, 80), (64, 600, 100),
               lambda l: bool(l.get("u")) and l["st"] == "ok",
               runner.num_corrupt(lambda p: len(p) == 5 and p[0] == "u" and p[3] == "q"), fixed=[scripts.charge_pairs])
CHARGE_MC = [dict(module="ChargeMC", consts={"Sgs": "<- Simple", "W": "7"}, inv=["Group", "Canonical", "Order", "Metric"]),
             dict(module="ChargeMC", consts={"Sgs": "<- Products", "W": "2"}, inv=["Group", "Canonical", "Order", "Metric"], tier="quick", workers=4),
             dict(module="ChargeMC", consts={"Sgs": "<- Products", "W": "3"}, inv=["Group", "Canonical", "Order", "Metric"], tier="thorough", workers=8)]

QLIST = store("drv_qlist", "ListGen", "ListTrace", (8, 80, 80), (64, 600, 100),
              lambda l: bool(l.get("u")) and l["st"] == "ok" and any(x[1]["l"] for x in l["u"]),
              runner.num_corrupt(lambda p: len(p) == 6 and p[0] == "u" and p[3] == "l"))

FMAP = store("drv_fmap", "MapGen", "MapTrace", (8, 100, 90), (64, 800, 120),
             lambda l: bool(l.get("u")) and l["st"] == "ok" and any(x[1]["l"] for x in l["u"]),
             runner.num_corrupt(lambda p: len(p) == 6 and p[0] == "u" and p[3] == "l"))

FMAP_MC = [dict(module="MapMC", consts={"NK": "2", "NV": "2"}, inv=["Sorted", "Agrees"], cfg="VIEW View\n", tier="quick", workers=4),
           dict(module="MapMC", consts={"NK": "3", "NV": "2"}, inv=["Sorted", "Agrees"], cfg="VIEW View\n", tier="thorough", workers=8)]

DENSE = store("drv_plain", "DenseGen", "DenseTrace", (8, 60, 60), (64, 500, 80),
              lambda l: bool(l.get("u")) and l["st"] == "ok" and any(x[1]["v"] for x in l["u"]),
              runner.num_corrupt(lambda p: len(p) == 5 and p[0] == "u" and p[3] == "v"))

DOT_MC = [dict(module="DotMC", consts={"NF": "2", "NC": "2", "NG": "2"}, inv=["Correct", "Increasing", "NotStuck"], tier="quick", workers=4),
          dict(module="DotMC", consts={"NF": "2", "NC": "3", "NG": "2"}, inv=["Correct", "Increasing", "NotStuck"], tier="thorough", workers=8)]
SWEEP_MC = [dict(module="SweepMC", consts={"MinL": "2", "MaxL": "7", "MaxSweeps": "3"}, tier="quick", workers=4, prop=["Terminates"],
                 inv=["InRange", "FreshEnvironments", "CenterTrue", "EveryPair", "Periodic", "Ends"])]
SWEEP_MC.append(dict(SWEEP_MC[0], tier="thorough", consts={"MinL": "2", "MaxL": "12", "MaxSweeps": "4"}, workers=8))

PROPS = {
    "C01": dict(level="model_checking", parts=[CHARGE], models=CHARGE_MC),
    "C02": dict(level="model_checking", parts=[QLIST]),
    "C03": dict(level="model_checking", parts=[FMAP], models=FMAP_MC),
    "T01": dict(level="model_checking", parts=[tensor("T01", "NoOps", wf="TRUE")]),
    "T02": dict(level="model_checking", parts=[tensor("T02", "Elementwise")]),
    "T03": dict(level="model_checking", parts=[tensor("T03", "Contraction")], models=DOT_MC),
    "T04": dict(level="model_checking", parts=[tensor("T04", "Layout")]),
    "T05": dict(level="model_checking", parts=[tensor("T05", "ChargeOps")]),
    "T06": dict(level="model_checking", parts=[tensor("T06", "Conversion")]),
    "T07": dict(level="model_checking", parts=[tensor("T07", "NoOps", frame="TRUE", refuse="TRUE")]),
}
PROPS["P01"] = dict(level="model_checking", parts=[DENSE],
    models=[dict(module="DenseMC", consts={"E": "2", "MaxRank": "3"}, inv=["Definition", "Exchanged", "Tools"], workers=8)])
def decomp(kind, quick, thorough):
    return store("drv_linalg", "DecompGen", "DecompTrace", quick, thorough,
                 lambda l: l.get("res", {}).get("full") and any(max([0] + [abs(y) for y in x["v"]]) > 500 for x in l["res"]["full"]) and l["st"] == "ok",
                 corrupt_res, gconsts={"Kind": '"%s"' % kind})
def corrupt_res(l, rng):
    big = [(x, i) for k in ("full", "tr") if k in l["res"] for x in l["res"][k] for i, y in enumerate(x["v"]) if abs(y) > 500]
    if not big: return False
    x, i = rng.choice(big)
    x["v"][i] += 400
    return True
PROPS["L01"] = dict(level="model_checking", parts=[decomp("svd", (8, 150, 50), (64, 400, 60))])
PROPS["L02"] = dict(level="model_checking", parts=[decomp("trunc", (8, 150, 50), (64, 400, 60))],
    models=[dict(module="DecompMC", consts={"NV": "3", "NS": "2", "MaxV": "3"}, inv=["Rule", "Unique"], workers=8)])
PROPS["L03"] = dict(level="model_checking", parts=[decomp("eigh", (8, 150, 50), (64, 400, 60))])
def canon(kind, quick, thorough):
    return store("drv_network", "CanonGen", "CanonTrace", quick, thorough,
                 lambda l: bool(l.get("u")) and l["st"] == "ok" and any(x[1].get("v") for x in l["u"]),
                 runner.num_corrupt(lambda p: len(p) == 5 and p[0] == "u" and p[3] == "v"), gconsts={"Kind": '"%s"' % kind})
PROPS["N02"] = dict(level="model_checking", parts=[canon("S", (8, 60, 60), (64, 400, 80))])
PROPS["N05"] = dict(level="model_checking", parts=[canon("O", (8, 40, 40), (64, 300, 60))])
def net(profile, quick, thorough):
    ok = (lambda l: bool(l.get("u")) and l["st"] == "ok") if profile == "edit" else (lambda l: l["op"] in ("contract", "two", "h2s") and l["st"] == "ok")
    where = (lambda p: p[0] == "r" or (p[0] == "u" and len(p) > 3 and p[3] == "ts" and "v" in p)) if profile == "value" else (lambda p: p[0] == "u" and len(p) > 3 and p[3] == "ts" and "v" in p)
    return store("drv_network", "NetGen", "NetTrace", quick, thorough, ok, runner.num_corrupt(where), gconsts={"Profile": '"%s"' % profile})
PROPS["N01"] = dict(level="model_checking", parts=[net("edit", (8, 60, 60), (64, 400, 80))])
PROPS["N03"] = dict(level="model_checking", parts=[net("value", (8, 40, 40), (64, 400, 60))])
PROPS["M01"] = dict(level="model_checking", parts=[store("drv_models", "ModelGen", "ModelTrace", (8, 25, 24), (64, 150, 30),
    lambda l: l["st"] == "ok" and l["op"] == "model" and bool(l["out"].get("me")),
    runner.num_corrupt(lambda p: p[0] == "out" and p[1] == "me"))])
def dims_wrong(l, rng):
    ts = l["out"]["ts"]
    x = rng.choice(ts)
    x["d"][rng.randrange(3)][0][0] += 1
    return True
PROPS["N04"] = dict(level="model_checking", parts=[store("drv_random", "RandGen", "RandTrace", (8, 60, 40), (64, 400, 60),
    lambda l: l["st"] == "ok" and bool(l.get("out", {}).get("ts")), dims_wrong)])
def energy_wrong(l, rng):
    l["out"]["e"] += 4000
    return True
def dmrg(kind, quick, thorough):
    return store("drv_dmrg", "DmrgGen", "DmrgTrace", quick, thorough,
                 lambda l: l["st"] == "ok" and l["maxit"] > 0 and bool(l.get("out", {}).get("ev")), energy_wrong, gconsts={"Kind": '"%s"' % kind})
PROPS["D01"] = dict(level="model_checking", parts=[dmrg("protocol", (8, 30, 20), (64, 200, 30))], models=SWEEP_MC)
PROPS["D02"] = dict(level="model_checking", parts=[dmrg("value", (8, 30, 20), (64, 200, 30))])
NA = {}
