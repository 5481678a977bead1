#!/usr/bin/env python3
"""Writes bindings/abi/*.abi, bindings/src/lib.rs and bindsim/src/glue.rs (all committed).
Run from /verif only when the set of ABIs is to change; no check runs it."""
import json, random, re
R = random.Random(20240607)
BASE = ["address", "bytes", "bytes1", "bytes4", "bytes20", "bytes32", "int8", "int256", "uint8", "uint64", "uint256", "bool", "string"]
SHAPES = ["", "[]", "[1]", "[3]", "[][]", "[2][]", "[][2]", "[2][3]", "[][][]"]
PNAMES = ["_to", "amount", "newOwner", "snake_name", "X", "deadLine2", "_dataHash", "who", "idx", "kindOf"]

def ty():
    return R.choice(BASE) + R.choice(["", "", "", "", "[]", "[2]", "[][]", "[3][]", "[][2]", "[1][2]"])

def params(n, extra=None):
    names = R.sample(PNAMES, n)
    out = []
    for i in range(n):
        p = {"name": "" if R.random() < .2 else names[i], "type": ty()}
        if extra: p.update(extra(p))
        out.append(p)
    return out

def fn(name, ins, outs, mut="nonpayable"):
    return {"type": "function", "name": name, "inputs": ins, "outputs": outs, "stateMutability": mut}

def p(t, n=""): return {"name": n, "type": t}

abis = {}
# every base type in every shape, in and out
abis["shapes"] = [fn("fn_" + b + "_" + str(k), [p(b + s, "v")], [p(b + s)], "view") for b in BASE for k, s in enumerate(SHAPES)]
abis["shapes"].append({"type": "constructor", "inputs": [p("uint256", "_supply"), p("string", "name")]})
# what real contracts look like
abis["token"] = [
    {"type": "constructor", "inputs": [p("string", "name_"), p("string", "symbol_"), p("uint8", "decimals_"), p("address[]", "holders")], "stateMutability": "payable"},
    fn("balanceOf", [p("address", "owner")], [p("uint256")], "view"), fn("transfer", [p("address", "to"), p("uint256", "value")], [p("bool")]),
    fn("transferFrom", [p("address", "from"), p("address", "to"), p("uint256", "value")], [p("bool", "success")]),
    fn("totalSupply", [], [p("uint256")], "view"), fn("name", [], [p("string")], "view"),
    fn("getReserves", [], [p("uint112", "_r0"), p("uint112", "_r1"), p("uint32", "_t")], "view"),
    fn("setData", [p("bytes32", "key"), p("bytes", "value")], []), fn("safeBatchTransferFrom", [p("address", "from"), p("address", "to"), p("uint256[]", "ids"), p("uint256[]", "amounts"), p("bytes", "data")], []),
    fn("balanceOfBatch", [p("address[]", "accounts"), p("uint256[]", "ids")], [p("uint256[]")], "view"),
    fn("multicall", [p("bytes[]", "data")], [p("bytes[]", "results")], "payable"),
    fn("supportsInterface", [p("bytes4", "interfaceId")], [p("bool")], "view"),
    fn("permit", [p("address", "owner"), p("address", "spender"), p("uint256", "value"), p("uint256", "deadline"), p("uint8", "v"), p("bytes32", "r"), p("bytes32", "s")], []),
    {"type": "event", "name": "Transfer", "anonymous": False, "inputs": [dict(p("address", "from"), indexed=True), dict(p("address", "to"), indexed=True), dict(p("uint256", "value"), indexed=False)]},
    {"type": "event", "name": "Approval", "anonymous": False, "inputs": [dict(p("address", "owner"), indexed=True), dict(p("address", "spender"), indexed=True), dict(p("uint256", "value"), indexed=False)]},
    {"type": "event", "name": "TransferBatch", "anonymous": False, "inputs": [dict(p("address", "operator"), indexed=True), dict(p("address", "from"), indexed=True), dict(p("address", "to"), indexed=True), dict(p("uint256[]", "ids"), indexed=False), dict(p("uint256[]", "values"), indexed=False)]},
    {"type": "event", "name": "NameRegistered", "anonymous": False, "inputs": [dict(p("string", "name"), indexed=True), dict(p("bytes32", "label"), indexed=True), dict(p("uint256", "expires"), indexed=False)]},
    {"type": "fallback", "stateMutability": "payable"}, {"type": "receive", "stateMutability": "payable"},
]
WORDS = ["alpha", "beta", "gamma", "delta", "kappa", "sigma", "omega", "zeta"]
# many parameters
abis["wide"] = []
for i in range(40):
    w = R.sample(WORDS, 2)
    abis["wide"].append(fn(f"{w[0]}{w[1].title()}No{i}" if i % 2 else f"{w[0]}_{w[1]}_{i}", params(R.randrange(0, 8)), params(R.randrange(0, 7)), R.choice(["pure", "view", "nonpayable", "payable"])))
abis["wide"].append({"type": "constructor", "inputs": params(6)})
# events of all kinds
abis["events"] = []
EV = [a.title() + b.title() for a in WORDS for b in WORDS if a != b]
k = 0
for b in BASE:
    for s in ["", "[]", "[2]", "[][2]"]:
        abis["events"].append({"type": "event", "name": EV[k], "anonymous": False, "inputs": [dict(p(b + s, "v"), indexed=True), dict(p(b + s, "w"), indexed=False)]})
        k += 1
EV2 = [a.title() + "To" + b.title() for a in WORDS for b in WORDS]
for i in range(44):
    anon = i % 9 == 8
    left = [3]
    def ix(_):
        if left[0] and R.random() < .5:
            left[0] -= 1
            return {"indexed": True}
        return {"indexed": False}
    abis["events"].append({"type": "event", "name": EV2[i], "anonymous": anon, "inputs": params(R.randrange(0, 7), ix)})
abis["events"].append({"type": "constructor", "inputs": []})
# names the generator rewrites
abis["odd"] = [
    {"type": "event", "name": "URI", "anonymous": False, "inputs": [dict(p("string", "value"), indexed=False), dict(p("uint256", "id"), indexed=True)]},
    {"type": "event", "name": "log_note", "anonymous": False, "inputs": [dict(p("uint256", "x"), indexed=False)]},
    {"type": "event", "name": "Fine", "anonymous": False, "inputs": [dict(p("uint256", "x"), indexed=True)]},
    fn("URI", [p("uint256", "id")], [p("string")], "view"), fn("_hidden", [p("uint256", "_")] if False else [p("uint256", "x_")], [p("uint256")], "pure"), fn("snake_case_fn", [], [p("uint256"), p("uint256")]),
]

# every size, long arrays, deep shapes, long parameter lists
SIZES = [f"bytes{n}" for n in range(2, 32)] + [f"{k}{n}" for k in ("int", "uint") for n in range(16, 256, 8)]
SHAPES2 = ["", "", "[]", "[2]", "[][]", "[4]", "[5][]", "[][3]"]
abis["sizes"] = []
for i in range(0, len(SIZES), 5):
    ts = [t + R.choice(SHAPES2) for t in SIZES[i:i + 5]]
    abis["sizes"].append(fn(f"sized{i}", [p(t, f"arg{j}") for j, t in enumerate(ts)], [p(t, f"out{j}") for j, t in enumerate(reversed(ts))], "view"))
LONG = ["uint256[4]", "address[8]", "bool[16]", "bytes32[31]", "uint8[32]", "string[33]", "bytes3[40]", "int128[64]", "bytes[17]", "uint16[100]", "address[4][4]", "uint256[][][][]", "bytes5[2][][3][]", "string[][2][][2]", "bool[3][3][3]", "int24[10][]", "bytes[][12]"]
for i, t in enumerate(LONG):
    abis["sizes"].append(fn(f"long_{i}", [p("bool", "before"), p(t, "v"), p("uint8", "after")], [p("uint8"), p(t), p("bool")], "pure"))
for n, o in ((9, 8), (10, 9), (12, 10), (14, 12), (16, 1), (1, 13), (26, 0)):
    abis["sizes"].append(fn(f"many{n}And{o}", [p(ty() if R.random() < .5 else R.choice(SIZES), f"in{j}") for j in range(n)], [p(ty() if R.random() < .5 else R.choice(SIZES), f"out{j}") for j in range(o)]))
for i in range(16):
    anon = i % 4 == 3
    left = [3]
    n = R.randrange(4, 13)
    ev_in = []
    for j in range(n):
        t = R.choice(SIZES) + R.choice(SHAPES2) if R.random() < .7 else R.choice(LONG)
        ix_ = left[0] > 0 and R.random() < .5
        left[0] -= ix_
        ev_in.append({"name": R.choice(["", f"field{j}", f"fieldNo{j}", f"_f{j}"]), "type": t, "indexed": bool(ix_)})
    abis["sizes"].append({"type": "event", "name": f"Sized{chr(65 + i).upper()}{'x' * (i % 3)}", "anonymous": anon, "inputs": ev_in})
abis["sizes"].append({"type": "constructor", "inputs": [p(R.choice(SIZES) + R.choice(SHAPES2), f"c{j}") for j in range(11)]})

# every number of indexed and other parameters, anonymous or not, named or not; every mutability
abis["grid"] = []
TOPICS = ["uint256", "address", "string", "bytes32", "bool[2]", "int64", "bytes[]", "bool"]
DATA = ["bool", "string", "uint128[]", "address", "bytes", "bytes8", "int256[2]", "string[]"]
k = 0
for anon in (False, True):
    for i in range(0, 5 if anon else 4):
        for d in range(0, 4):
            for style in ("named", "bare", "mixed"):
                if style != "named" and i + d == 0: continue
                ps = [{"type": TOPICS[(k + 3 * j) % 8], "indexed": True} for j in range(i)] + [{"type": DATA[(k + 3 * j) % 8], "indexed": False} for j in range(d)]
                if k % 2: R.shuffle(ps)
                for j, q in enumerate(ps):
                    q["name"] = "" if style == "bare" or style == "mixed" and (j + k) % 2 else ["f", "raw", "data", "log", "from", "e", "c"][j]
                abis["grid"].append({"type": "event", "name": f"{'Anon' if anon else 'Event'}Of{i}And{d}{style.title()}", "anonymous": anon, "inputs": ps})
                k += 1
for mut in ("pure", "view", "nonpayable", "payable"):
    for i in range(0, 4):
        for o in range(0, 4):
            style = ["named", "bare", "mixed"][k % 3]
            nm = lambda j: "" if style == "bare" or style == "mixed" and (j + k) % 2 else ["f", "c", "code"][j]
            abis["grid"].append(fn(f"{mut}_{i}_to_{o}", [p((TOPICS + DATA)[(k + 5 * j) % 16], nm(j)) for j in range(i)], [p((DATA + TOPICS)[(k + 7 * j) % 16], nm(j)) for j in range(o)], mut))
            k += 1
abis["grid"].append({"type": "constructor", "inputs": [p("uint256", "c"), p("string", "code"), p("bytes[2]", "f"), p("bool", "")]})

def snake(n):  # heck 0.3 for the names used here
    n = re.sub(r"([A-Z]+)([A-Z][a-z])", r"\1_\2", n)
    n = re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", n)
    return re.sub(r"_+", "_", n).strip("_").lower()
def camel(n):
    return "".join(w[:1].upper() + w[1:] for w in snake(n).split("_"))

def rust(t):
    m = re.match(r"^(.*)\[(\d*)\]$", t)
    if m:
        return f"Vec<{rust(m[1])}>" if not m[2] else f"[{rust(m[1])}; {m[2]}]"
    if t == "address": return "ethabi::Address"
    if t == "bytes": return "Vec<u8>"
    if t == "bytes32": return "ethabi::Hash"
    if t.startswith("bytes"): return f"[u8; {t[5:]}]"
    if t.startswith("int"): return "ethabi::Int"
    if t.startswith("uint"): return "ethabi::Uint"
    return {"bool": "bool", "string": "String"}[t]

def lets(ins, src="a"):
    return "".join(f"let x{i}: {rust(q['type'])} = V::from_m(&{src}[{i}]); " for i, q in enumerate(ins))
def xs(n): return ", ".join(f"x{i}" for i in range(n))

lib = ["//! Written by tools/gluegen.py. Nothing but the bindings, so that what fails to compile here is what the macro wrote.", "#![allow(warnings)]"]
g = ["//! Written by tools/gluegen.py: typed calls into the bindings.", "use crate::v::{Crit, EvGlue, FnGlue, Abi, V, topics};", "use ethabi::FunctionOutputDecoder;", "use simcore::mty::{MType, MVal};", ""]
tail = []
for name, entries in abis.items():
    json.dump(entries, open(f"bindings/abi/{name}.abi", "w"), indent=1)
    open(f"bindings/abi/{name}.abi", "a").write("\n")
    lib.append(f'ethabi_contract::use_contract!({name}, "abi/{name}.abi");')
    fns, evs, ctor = [], [], "None"
    for e in entries:
        if e["type"] == "function":
            m = f"bindings::{name}::functions::{snake(e['name'])}"
            ins, outs = e["inputs"], e["outputs"]
            id_ = f"{name}_{snake(e['name'])}"
            if len(outs) == 0: conv = "let () = r; vec![]"
            elif len(outs) == 1: conv = "vec![r.to_m(&t[0])]"
            else: conv = "vec![" + ", ".join(f"r.{i}.to_m(&t[{i}])" for i in range(len(outs))) + "]"
            g.append(f"mod {id_} {{ use super::*; use {m} as b;")
            g.append(f"\tpub fn encode(a: &[MVal]) -> Vec<u8> {{ {lets(ins)}b::encode_input({xs(len(ins))}) }}")
            g.append(f"\tpub fn decode(t: &[MType], d: &[u8]) -> Result<Vec<MVal>, String> {{ let r = b::decode_output(d).map_err(|e| e.to_string())?; Ok({{ {conv} }}) }}")
            g.append(f"\tpub fn call(a: &[MVal]) -> (Vec<u8>, Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>) {{ {lets(ins)}let (d, k) = b::call({xs(len(ins))}); (d, Box::new(move |t, d| {{ let r = k.decode(d).map_err(|e| e.to_string())?; Ok({{ {conv} }}) }})) }}")
            g.append("}")
            fns.append(f"FnGlue {{ name: {json.dumps(e['name'])}, encode: {id_}::encode, decode: {id_}::decode, call: {id_}::call }}")
        elif e["type"] == "event":
            m = f"bindings::{name}::events::{snake(e['name'])}"
            id_ = f"{name}_ev_{snake(e['name'])}"
            ix = [q for q in e["inputs"] if q["indexed"]]
            fields = []
            for i, q in enumerate(e["inputs"]):
                f = snake(q["name"]) if q["name"] else (f"topic{i}" if q["indexed"] else f"param{i}")
                fields.append(f"r.{f}.to_m(&t[{i}])")
            # the trailing expression pins the struct's name
            g.append(f"mod {id_} {{ use super::*; use {m} as b; use bindings::{name}::logs::{camel(e['name'])} as L;")
            g.append(f"\tpub fn event() -> ethabi::Event {{ b::event() }}")
            args = ", ".join(f"topics::<{rust(q['type'])}>(&c[{i}])" for i, q in enumerate(ix))
            g.append(f"\tpub fn filter(c: &[Crit]) -> ethabi::TopicFilter {{ b::filter({args}) }}")
            g.append(f"\tpub fn wildcard() -> ethabi::TopicFilter {{ b::wildcard_filter() }}")
            g.append(f"\tpub fn parse(t: &[MType], l: ethabi::RawLog) -> Result<Vec<MVal>, String> {{ let r: L = b::parse_log(l).map_err(|e| e.to_string())?; Ok(vec![{', '.join(fields)}]) }}")
            g.append("}")
            evs.append(f"EvGlue {{ name: {json.dumps(e['name'])}, event: {id_}::event, filter: {id_}::filter, wildcard: {id_}::wildcard, parse: {id_}::parse }}")
        elif e["type"] == "constructor":
            g.append(f"fn {name}_ctor(code: Vec<u8>, a: &[MVal]) -> Vec<u8> {{ {lets(e['inputs'])}bindings::{name}::constructor(code{''.join(', x%d' % i for i in range(len(e['inputs'])))}) }}")
            ctor = f"Some({name}_ctor)"
    tail.append(f"\t\tAbi {{ name: \"{name}\", text: include_str!(\"../../bindings/abi/{name}.abi\"), ctor: {ctor}, fns: vec![\n" + "".join(f"\t\t\t{f},\n" for f in fns) + "\t\t], evs: vec![\n" + "".join(f"\t\t\t{f},\n" for f in evs) + "\t\t] },")
g.append("pub fn abis() -> Vec<Abi> {\n\tvec![\n" + "\n".join(tail) + "\n\t]\n}")
open("bindings/src/lib.rs", "w").write("\n".join(lib) + "\n")
open("bindsim/src/glue.rs", "w").write("\n".join(g) + "\n")
