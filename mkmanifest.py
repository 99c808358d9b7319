#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after changing it)."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
LEX = "explicit-state enumeration of the input space on the real parser, against a reference "
SCHED = "stateless model checking of the real server loop and its background tasks under a controlled scheduler"
CHECKS = {
 "C01": (SCHED, "every history of document events up to the stated length with every order of computing, delivering and receiving; granularity: one computation of one file's diagnostics is one step; oracle: the parser itself plus naive positions (the parser is the subject of C08-C15)"),
 "C02": (SCHED, "as C01; every publication is compared with the newest text and version the client has told"),
 "C03": (SCHED, "test requests are routed through the three ways of dispatching, since shutdown is the only real request; longer histories with a bound on unusual scheduling choices"),
 "C04": (SCHED + ", over enumerated sequences of hostile messages", "every sequence of up to three messages of the stated alphabet; probes afterwards"),
 "C05": (SCHED, "every history of the stated alphabet and length, ended at every point by exit or a disconnect; termination judged by a watchdog"),
 "C06": ("exhaustive enumeration of texts and batches of edits on the real code, and through the server", "oracle: naive protocol semantics; positions beyond a line or inside a character may go to either neighbour"),
 "C07": ("exhaustive enumeration of texts on the real conversions, and through the server in both encodings", "oracle: naive column counting"),
 "C28": ("explicit-state exploration of operation sequences on the real store against a list-and-set model", "diagnostics are the same if range, severity, source and message are"),
 "C29": ("exhaustive enumeration of edit lists on the real code", "oracle: pairwise overlap"),
 "C34": ("exhaustive enumeration of capability and workspace descriptions and of every point at which the client vanishes, on the real executable", "the executable's threads run as the system schedules them"),
 "C35": (SCHED + ", over enumerated spellings of URIs", "oracle: a naive reading of RFC 8089; names that look like the drive of a Windows path are left out"),
 "C08": ("bounded exhaustive exploration of the real parser with a watchdog",
         "every token sequence up to the stated depth in every syntactic context, every character string up to the stated length, every one-token edit of a corpus, and every repetition of short units; judged by termination and absence of panics"),
 "C09": ("bounded exhaustive exploration of the real parser", "every enumerated text's tree is walked and compared with the text"),
 "C10": (LEX + "lexer", "reference lexer written from the token table in DESIGN.md is trusted"),
 "C11": (LEX + "grammar automaton", "reference grammar in DESIGN.md / refparse.rs is trusted; bounds as in evidence"),
 "C12": (LEX + "grammar automaton", "reference grammar and operator table in DESIGN.md are trusted"),
 "C13": ("exhaustive enumeration of trivia placements over enumerated token sequences on the real parser", "metamorphic: no reference tree is trusted"),
 "C14": (LEX + "grammar automaton", "viable prefixes are those of the reference grammar"),
 "C15": ("bounded exhaustive exploration of the real parser's trees", "accessors compared with naive child scans on every node of every enumerated tree"),
 "C16": ("bounded exhaustive exploration of the real line index", "every text over an alphabet of ASCII, CR, LF, two-, three- and four-byte characters up to the stated length; every offset and position compared with a naive scan"),
 "C21": ("explicit-state exploration of change sequences on the real database against from-scratch evaluation", "every sequence up to the stated depth, with a query after every step"),
 "C22": ("stateless model checking of real threads under a controlled scheduler (preemption bounded)", "granularity: the query events of the database library; code between two events is one step"),
 "C17": ("explicit-state exploration of operation sequences on the real Vfs against a map-and-log model", "after every sequence every observer is compared with the model"),
 "C18": ("exhaustive enumeration of root configurations on the real partitioning", "oracle: naive longest-ancestor search over component lists; roots listed in two sets may go to either"),
 "C19": ("exhaustive enumeration of path spellings and pairs on the real types", "oracle: component lists; virtual paths follow their documented string semantics"),
 "C20": ("exhaustive enumeration of include/exclude sets on the real filters", "oracle: longest-match rule over component lists"),
 "C23": ("exhaustive enumeration of directory layouts, each built in a scratch directory and searched by the real code", "oracle: nearest-ancestor-then-children rule"),
 "C24": ("exhaustive enumeration of manifests (value assignments, entry orders, every cut and byte replacement, all short texts) loaded by the real code", "the TOML grammar itself is only judged where the enumeration knows the meaning; elsewhere only crash freedom and error naming"),
 "C25": ("exhaustive enumeration of child write/close/exit schedules under a child that waits for the reader", "every script of writes is run with every choice of which writes are read together; reader progress is observed through the kernel"),
 "C26": ("exhaustive enumeration of small inputs and scope nestings on the real helpers", "oracle: naive definitions"),
 "C27": ("explicit-state exploration of enter/leave/panic sequences on two threads against a stack model", "each sequence runs on real threads in a child process whose error output is compared"),
}
TS = "stateless model checking of the real extension code in a controlled environment: "
CHECKS.update({
 "C30": (TS + "every order and outcome of every file system and network step", "file system steps act on a real scratch directory; writes and copies can stop midway; node-fetch is a stand-in"),
 "C31": (TS + "every order and outcome of the network, file system and dialog steps", "one download is one file whose bytes arrive in two pieces (C30 explores the inside of a download)"),
 "C32": (TS + "every interleaving of editor events with start-up steps and their failures, context-switch bounded for longer scripts", "the editor and the language client library are stand-ins"),
 "C33": (TS + "every chunking and order of a child process's output, exit and end", "the stand-in for child processes is compared with real processes in every run"),
})
ALL = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --build-all",
 "hooks": {"guard": "cfg(mls_verif)", "enable": "RUSTFLAGS=\"--cfg mls_verif\" (set by check.py for every build of the checkers)", "source_commits": hooks},
 "checks": [{"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
             "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n}
            for i, (t, n) in sorted(CHECKS.items())],
 "not_applicable": [{"property": i, "reason": "not built yet"} for i in ALL if i not in CHECKS],
 "notes": "See DESIGN.md. Known and repaired findings: known-findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
