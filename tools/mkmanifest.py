#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; conformance of recorded executions of the real code judged by a TLC trace specification"
NOTE = {
 "C01": "Histories printed by TLC from spec/CkubeCache.tla are replayed on the real store; after every notification everything readable is judged by TraceCache. The design is checked exhaustively for small constants. Bounded by sampled histories.",
 "C16": "As C01, with the exported gauge read after every notification.",
 "C04": "The laws of matching (conjunction, negation, order of parts without influence, ..) are checked exhaustively on CkubeQuery for small contents (MCQuery), a wrong design refuted. Seeded contents, configurations and query syntax trees; the answers of the real router are judged by CkubeQuery/TraceList. Sampled, not exhaustive.",
 "C05": "That pages partition the result and the counts add up is checked exhaustively on CkubeQuery for small sizes (MCQuery), a wrong design refuted. Page walks over seeded contents and queries, including zero, negative and huge pages, judged by CkubeQuery/TraceList.",
 "C06": "The order of the specification is checked exhaustively to be a strict weak order that compares by value and honours precedence (MCOrder), three wrong designs refuted. Seeded sort specifications with ties and numbers over seeded contents, judged by CkubeQuery/TraceList; repeated requests must give one order.",
 "C07": "Confinement to the addressed clusters is checked exhaustively on CkubeQuery for small contents (MCQuery), a wrong design refuted. Seeded multi-cluster contents with colliding names and every way of addressing, judged by CkubeQuery/TraceList.",
 "C11": "The chunk encoding is checked for every length of the model to come back as it was, whatever the order of the values (MCEncoding), the helpers for all short call sequences (MCQuery), three wrong designs refuted. Seeded queries with arbitrary text up to 9000 characters, helper call sequences and option wrappers through the real encoder, router and store, judged by CkubeQuery/TraceList.",
 "C19": "Table and plain form of seeded queries compared cell by cell by CkubeQuery/TraceList.",
 "C02": "The stream protocol is checked exhaustively for two streams (CkubeWatch/MCWatch: safety and, under fairness, convergence). Sampled histories of upstream changes, refusals, breaks, garbage and hours of waiting are run against the real watcher in virtual time and judged by TraceWatch.",
 "C03": "As C02, with the stop arriving at any step and together with answers and events.",
 "C08": "The way the gateway works through a request is checked exhaustively, for all orders of the options, to end as CkubeGateway demands (MCGateway), two wrong designs refuted. TLC enumerates the feature combinations of GenGateway (method, shape, options, selector, addressing); each is sent to the real router with stand-in api servers and judged by CkubeGateway/TraceGateway. Concrete names, tokens and bodies are sampled.",
 "C09": "As C08, with four wrong designs of addressing and cleaning refuted, for everything that is forwarded: what reached which upstream, once, and what the client got back, also for requests sent at the same time.",
 "C10": "MCGateway as in C08, a late token check refuted. Every method and path shape with and without the token, judged by CkubeGateway/TraceGateway.",
 "C20": "Hostile and malformed requests and malformed upstream answers against the real router; after each one the server must answer a probe and hold the same contents (TraceList TRaw).",
 "C15": "CkubeDeploy is checked exhaustively for small constants (the owner-name rule refines it, answers are isolated); histories printed by TLC are replayed on the real store and endpoint and judged by TraceDeploy.",
 "C21": "The word by word algorithm is checked exhaustively, for all lines of up to 4 tokens (thorough: 5), to mean what CkubePlugin says (MCPlugin), three wrong designs refuted. Command lines printed by TLC from GenPlugin are run through the real wrapper with a stand-in kubectl; its arguments are judged by CkubePlugin/TracePlugin, the selector by what the real server answers for it.",
 "C18": "CkubeFake is checked exhaustively for small constants (isolation of clusters, one report per success); sequences of calls printed by TLC are replayed on the real fake server over HTTP and judged by TraceFake.",
 "C12": "The locking design is checked exhaustively for small constants (CkubeConc/MCConc; torn copies, copy-back writers and nested locking are refuted). Goroutines of the real store and router, also under the race detector, are recorded with a shared clock and every read is judged by TraceConc. Schedules are sampled.",
 "C13": "The reload design (events, ticks, compare by identity, watch before load, one swap per burst) is checked exhaustively for small constants; its single-mistake variants are refuted. Histories of file edits printed by TLC are carried out on the real binary with three TLS upstreams; what every later request observes is judged by TraceReload. Real time, bounded waits.",
 "C14": "The proxying of watches is checked exhaustively (CkubeWatchProxy/MCWatchProxy) with its single-mistake variants refuted; histories of upstream chunks, stalls, hours of silence, breaks and departures printed by TLC are run through the real handler in virtual time and judged by TraceWatchProxy.",
 "C17": "Objects of built-in types (filled at random by reflection) and of custom types with awkward kinds and bodies are reported to the real watcher, in virtual time, and read back over the real router; every leaf and every index value (expressions are syntax trees evaluated by the specification) is judged by CkubeObjects/TraceObjects. Sampled.",
}
PENDING = {}
checks = []
for i in range(1, 22):
    p = "C%02d" % i
    if p in NOTE:
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                       "technique": T, "level": "model_checking", "level_note": NOTE[p]})
    else:
        PENDING[p] = "no check built yet"
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in PENDING.items()],
     "notes": "No hooks in /repo are needed: the driver uses exported interfaces through a test overlay."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
