#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
COMMON = ("Every enumerated execution runs the unmodified sources of /repo, compiled against modelled std/tokio/rand "
          "(virtual clock, controlled scheduler, simulated network, enumerated random picks). ")
T = {
 "C01": ("exhaustive enumeration of operation histories on the real interpreter, compared with a reference map",
         "All histories within the stated depth and key/value alphabet. Data values outside the alphabet are not covered."),
 "C02": ("exhaustive enumeration of histories with clock ticks and sweeps, compared with a reference map with deadlines",
         "All histories within the stated depth; clock advances are multiples of 0.7 s (and the lanes' own values) and never go backwards."),
 "C03": ("exhaustive enumeration of lifetime histories and extreme lifetimes, compared with reference deadlines",
         "All histories within the stated depth; lifetimes above 2^32 s may also be refused."),
 "C04": ("exhaustive enumeration of histories, clock ticks and every random pick of the sweeper; bookkeeping invariant in every state, drain at the end",
         "All histories and picks within the stated depth and up to 6 keys."),
 "C05": ("exhaustive enumeration of vector operation sequences, compared with a typed list",
         "All sequences within the stated depth for every element type."),
 "C06": ("exhaustive enumeration of map operation sequences, compared with a typed dictionary",
         "All sequences within the stated depth for every key and element type."),
 "C07": ("exhaustive enumeration of statement lists and initial states, compared with a reference interpreter",
         "All lists within the stated length over the stated statements."),
 "C08": ("exhaustive enumeration of statement lists and privilege levels, compared with a reference interpreter",
         "All lists within the stated length, all levels."),
 "C09": ("exhaustive enumeration of request texts over character classes and of token sequences; no panic, bounded steps",
         "All texts within the stated lengths over the alphabet; longer texts only as enumerated families."),
 "C10": ("exhaustive enumeration of statement ASTs and layouts, parsed by the real code and compared with the AST by construction",
         "All ASTs and layouts within the stated bounds."),
 "C11": ("exhaustive enumeration of token sequences, acceptance compared with an independent grammar; state read back",
         "All token sequences within the stated lengths."),
 "C12": ("exhaustive enumeration of fragmentations of HTTP requests over a simulated connection, compared with the request by construction",
         "All split points within the stated number of cuts for the request corpus, both servers' readers."),
 "C13": ("exhaustive enumeration of truncations, read failures and mutations of HTTP requests on the real servers",
         "All truncation points, a read error at every read, single mutations of the corpus."),
 "C14": ("exhaustive enumeration of replies and short-write patterns, judged by an independent HTTP response parser",
         "All reply kinds of the corpus and all short-write patterns within the deviation bound."),
 "C15": ("exhaustive enumeration of reply values, decoded and compared deeply",
         "All reply kinds and storable values of the alphabet, nested sizes within the bound."),
 "C16": ("exhaustive enumeration of client sequences with all credentials on the three real servers, compared with a reference server",
         "All sequences within the stated length."),
 "C17": ("exhaustive enumeration of shutdown requests, levels, servers and (bounded) schedules",
         "All sequences within the stated length; schedules up to the stated number of preemptions/delays."),
 "C18": ("exhaustive enumeration of misbehaving client sequences on the three real servers, followed by a well-behaved client",
         "All sequences within the stated length from the menu. Clients that stall for ever without closing are outside the property."),
 "C19": ("stateless exploration of the real multithreaded server under a controlled scheduler, bounded preemptions/delays; brute-force linearizability",
         "All schedules within the preemption/delay bound for the stated client sets. Sequentially consistent memory."),
 "C20": ("stateless exploration of the real multithreaded server around a shutdown under a controlled scheduler, bounded preemptions/delays",
         "All schedules within the preemption/delay bound for the stated client sets."),
 "C21": ("stateless exploration of the real asynchronous server under a controlled scheduler, bounded preemptions/delays; brute-force linearizability",
         "All schedules within the bound; tokio's own runtime is replaced by a model."),
 "C22": ("exhaustive enumeration of client sequences on the three real servers, replies compared with each other",
         "All sequences within the stated length from the menu."),
 "C23": ("exhaustive enumeration of mixtures of entries and sweeper picks on the real servers in virtual time, live memory observed",
         "All mixtures within the bound, fair picks enumerated; memory observed through the allocator."),
 "C24": ("exhaustive enumeration of operations on entries of every kind and origin, statement lists, query texts and users; kind and status of the refusal compared with the reference's cause",
         "All operations of the alphabet on every kind of entry, lists within the stated length, texts and users of the corpus. Where two causes apply at once, either is accepted."),
 "C25": ("exhaustive enumeration of texts up to a length over adversarial alphabets, all token sequences with all gaps, all single edits of a corpus and every code point; positions, spellings and messages compared with the text and an independent reader",
         "All texts within the stated alphabets and lengths. The wording of messages is not judged, only what they name and quote."),
 "C26": ("exhaustive enumeration of cycles of statements and of client visits, repeated on the real interpreter and the real servers; live memory, threads and connections observed",
         "All cycles up to the stated length from the menu. Growth is told from slack by repeating a suspect cycle ten times longer."),
}
done = set(open(os.path.join(here, "bin", "claimed.txt")).read().split())
checks, na = [], []
for i in ids:
    if i in done:
        tech, note = T[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "model checking: " + tech,
            "level": "model_checking",
            "level_note": COMMON + note,
        })
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the sources are compiled as they are against modelled std, tokio and rand (see DESIGN.md).",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
