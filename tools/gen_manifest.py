#!/usr/bin/env python3
"""Writes MANIFEST.json. Properties without a check are listed as not applicable."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
HIST = "online state monitors over randomised message/block histories of the real application"
T = {
 "C01": HIST + " (conservation ledger); matched books judged for balance",
 "C02": HIST + " (escrow = sum of open obligations)",
 "C03": HIST + " (per-order price/amount/offer ledger); directly matched books",
 "C04": HIST + " (pool curve monitor); generated pools traded directly",
 "C05": HIST + " (share-value monitor); generated deposit/withdraw round trips",
 "C06": HIST + " (life-cycle automaton of every order and request)",
 "C07": HIST + " (market-making counter = live orders)",
 "C08": "differential monitoring of replica processes: same blocks, different local configuration, noise, processes and clocks",
 "C09": "fault injection at every recorded database write (prefix, failing write, restart, SIGKILL) with a state oracle from an uninterrupted run",
 "C10": "export/import round trips at random heights of random histories, both chains continued and compared",
 "C11": "runtime oracle over generated prices and grid walks against decimal-string arithmetic",
 "C12": HIST + " (priority and clearing monitor); matched books compared with an independent auction model",
 "C13": HIST + " (full-state diff around rejected messages); forked chains without the failed transactions, gas-limit sweeps",
 "C14": HIST + " (panic/error monitor on block hooks) and hostile direct inputs",
 "C15": "query answers at committed heights and over live histories compared with the stored records (differential oracle)",
 "C16": HIST + " (per-signer balance and record diff); forged transactions on forked chains",
 "C17": HIST + " (parameter range monitor)",
 "C18": HIST + " (grid and band monitor)",
 "C19": HIST + "; every order-book answer compared with a book rebuilt from the stored orders and the pools' quotes",
 "C20": "race detector (go build -race) over nodes that execute blocks while other goroutines query, simulate and check; answers and blocks compared with quiet executions",
 "C21": HIST + " (fee and surplus ledger)",
 "C22": HIST + " (identifier, uniqueness and limit monitor)",
 "C24": HIST + " (event log against state difference)",
 "C26": "differential gas metering of the same message and transaction under different extra-gas settings and limits",
 "C27": "differential monitoring of a bombarded and a quiet node; store digests around bursts of queries",
 "C25": "runtime oracle over generated pools, bands and precisions",
}
LEVEL = {"C09": "fault_enumeration"}
exec(open(os.path.join(here, "tools", "built.py")).read()) if os.path.exists(os.path.join(here, "tools", "built.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            technique=T[i], level=LEVEL.get(i, "exploration"),
            level_note=NOTES.get(i) if "NOTES" in globals() and i in NOTES else
              "Holds on the executions produced by a fixed, seed-determined case list; nothing is claimed about histories not run."))
    else:
        na.append(dict(property=i, reason="Check not built yet."))
json.dump(dict(version=1, setup_cmd="bash ./setup.sh", hooks=dict(guard="none (no hooks in the source)", enable="nothing to enable: the harness is compiled next to the source with go build -overlay", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="check.sh builds harness/*.go as a package of /repo's module through a build overlay, so every check runs the working tree's code; see DESIGN.md."),
    open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
