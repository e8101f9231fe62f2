#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TECH = {}

def prop(id, title, statement, over, text, why, files, mech, technique, level="exploration", note="", observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})
    TECH[id] = (technique, level, note)

S = "crates/host/state/src/"
RT = "crates/host/runtime/src/"

prop("C01", "State versions: reads, checkpoints, rollbacks, commits and rewinds agree",
  "Whatever sequence of writes, checkpoints, rollbacks, commits, rewinds and reopenings a state database goes through, every read of an account or template returns the latest value written on the surviving history, and a read as of a past layer returns exactly what that layer held when it was committed. A rollback drops what was not checkpointed, a rewind drops every layer after the given one for good, each commit makes exactly one new layer, and operations that must be refused (committing or rewinding over unsaved changes, rewinding to a layer that does not exist) change nothing.",
  ["histories", "inputs"], "every sequence of state operations over every set of addresses, values and layers, in memory and on disk, with the database closed and reopened at any point",
  "Unit tests check a handful of two- or three-step sequences on fixed keys; the behaviour depends on the whole history (shadowed values, rewound layers, reopened files).",
  [S+"storage.rs", S+"global_state.rs", S+"account_storage.rs", S+"template_storage.rs"],
  [("Dirty/saved/committed change sets", S+"storage.rs"), ("Versioned rows queried by highest layer", S+"resources"), ("Layer query parameter", S+"global_state.rs")],
  "runtime monitoring: random histories on the real database with an online reference-model checker reading everything back",
  observe=["GlobalState and the storage handles' getters, on the live handle and on as-of-layer clones"])

prop("C02", "A layer's fingerprint identifies the contents of the state",
  "Two states with the same contents have the same fingerprint, whatever order the writes came in, however they were spread over layers and checkpoints, and whatever was overwritten, rolled back or rewound on the way. States whose contents differ in any template, account, balance, counter, name or variable have different fingerprints.",
  ["histories", "inputs"], "every pair of histories",
  "The tests compare a few hand-written roots; equality over all routes to the same contents and inequality over all single differences is a statement about pairs of histories.",
  [S+"storage.rs", S+"global_state.rs"],
  [("Fingerprint accumulated per changed key", S+"storage.rs"), ("Fingerprint stored with the layer", S+"resources")],
  "runtime monitoring: the same contents are rebuilt along randomized routes and their fingerprints compared online, with single-difference neighbours")

prop("C04", "Storage variables don't interfere",
  "A variable of an account reads back exactly what was last written to it (zeros before the first write), whatever its size and position in the storage layout, and writing it changes no other variable, balance, counter or name of any account. Writes of the wrong size and accesses to variables outside the layout are refused and change nothing.",
  ["inputs", "histories"], "every storage layout, every variable, every sequence of writes",
  "The tests use a few layouts in which variables sit in one storage cell; the interesting ones straddle cell borders or share cells with neighbours.",
  [S+"account_storage.rs", "crates/host/layout/src/fixed.rs"],
  [("Variables cut into 32-byte cells", S+"account_storage.rs"), ("Offsets computed from the layout", "crates/host/layout/src/fixed.rs")],
  "runtime monitoring: after every single write all variables of all accounts are read back and compared with a reference model")

prop("C05", "Coins are conserved and an account only spends its own",
  "The balances of all accounts change only by minting, account creation and transfers: a transfer takes exactly its amount from one account and gives exactly that to the other, or is refused as a whole when an account is missing, the balance is too small or the destination would overflow; a transfer to oneself changes nothing. Code running on behalf of an account can only send that account's coins, and a transaction that fails moves none.",
  ["inputs", "programs", "histories"], "every contract, every sequence of transactions, every amount and pair of accounts",
  "The tests do single transfers between two funded accounts; conservation is about all sequences, failures half-way, borders of balances and hostile contracts.",
  [RT+"vmcalls/transfer.rs", RT+"runtime/runtime.rs"],
  [("Transfer vmcall", RT+"vmcalls/transfer.rs"), ("Host transfer and minting", RT+"runtime/runtime.rs"), ("Rollback of failed transactions", RT+"runtime/runtime.rs")],
  "runtime monitoring: random contracts and transactions run in the real runtime; an online ledger checker compares every balance after every operation")

prop("C06", "Transactions are all-or-nothing",
  "A call or spawn that succeeds takes effect as a whole and makes exactly one new layer, which holds its effects and whose fingerprint the receipt reports; one that fails for whatever reason (a trap, a refusal by the host half-way, a missing function, no gas) leaves every account, variable, balance and template, the current layer and earlier pending changes exactly as they were. Verifying a transaction never changes anything.",
  ["programs", "inputs", "histories"], "every contract, every point at which its execution fails, every history before it",
  "Existing tests look at the receipts of a few failing calls but not at the state left behind, and never fail after partial effects.",
  [RT+"runtime/runtime.rs", S+"storage.rs"],
  [("Checkpoint before and rollback after a failed transaction", RT+"runtime/runtime.rs"), ("Commit on success", RT+"runtime/runtime.rs")],
  "runtime monitoring: contracts that fail at random points of their effects; an online checker compares the whole state, layer and fingerprint before and after")

prop("C07", "Only permitted code runs, with only permitted access",
  "Spawning only runs functions declared as constructors, calling never runs a constructor, and only exported functions of the expected type run; anything else is refused with a receipt that names the reason. While input memory is being allocated and while a transaction is being verified, code can neither read nor write storage nor move coins: such an attempt fails the transaction.",
  ["programs", "inputs"], "every template, every function name, every contract's allocation and verification code",
  "Tests try a couple of names; which functions get to run, and with which rights, is a statement about all templates and code.",
  [RT+"runtime/runtime.rs", RT+"func_env.rs"],
  [("Constructor checks", RT+"runtime/runtime.rs"), ("Access modes", RT+"func_env.rs"), ("Signature check of exports", RT+"runtime/runtime.rs")],
  "runtime monitoring: random contracts and call targets in the real runtime against an online reference model of who may run")

prop("C08", "Deploying and spawning respect the gas limit",
  "A deploy runs out of gas exactly when its limit is below the price of its payload, and otherwise reports that price as used; a spawn runs out of gas exactly when its limit does not exceed the price of its payload plus the price of its constructor. With no limit (the largest limit there is) neither runs out of gas, and running out of gas leaves the state unchanged.",
  ["inputs", "programs"], "every template, constructor, payload and gas limit",
  "The tests use a zero or an unlimited allowance; the threshold depends on the payload's length and on the constructor's dearest path.",
  [RT+"runtime/runtime.rs", RT+"runtime/gas_tank.rs", RT+"runtime/price_cache.rs", "crates/host/gas/src/lib.rs"],
  [("Gas tank", RT+"runtime/gas_tank.rs"), ("Price cache", RT+"runtime/price_cache.rs"), ("Payload price", "crates/host/gas/src/lib.rs")],
  "runtime monitoring: deploys and spawns with limits at and around the exact price in the real runtime, judged by an independent pricer")

prop("C09", "Contract code sees and produces exactly what it should",
  "Executing contract code has exactly the effect its instructions describe: storage reads return what was last written in the account, memory handed out never overlaps, the input arrives unchanged, and variables, logs, returned data, touched accounts and the outcome in the receipt are those of the instructions executed. Requests outside the contract's memory, layout or receipt limits fail the transaction.",
  ["programs", "inputs", "histories"], "every contract, input and prior state",
  "Each host function has one or two tests with fixed arguments; how they combine over a contract's execution and over transactions isn't tested.",
  [RT+"vmcalls", RT+"func_env.rs", RT+"runtime/runtime.rs"],
  [("Host functions", RT+"vmcalls"), ("Receipt construction", RT+"runtime/runtime.rs")],
  "runtime monitoring: random contracts run in the real runtime; receipts and all variables are compared online with an interpreter of the contract's script")

exec(open(os.path.join(V, "tools", "more.py")).read()) if os.path.exists(os.path.join(V, "tools", "more.py")) else None

P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hook"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "bash run.sh build",
     "hooks": {"guard": "--cfg svm_verif", "enable": "RUSTFLAGS=\"--cfg svm_verif\" (build.sh)", "source_commits": hook},
     "checks": [], "not_applicable": []}
for p in P:
    t, level, note = TECH[p["id"]]
    m["checks"].append({"property": p["id"], "quick_cmd": "bash run.sh run " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash run.sh run " + p["id"],
        "technique": t, "level": level,
        "level_note": note or "Real code on generated workloads; the oracle judges every execution, the workload samples the space.",
        "evidence_file": "evidence/%s.json" % p["id"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
