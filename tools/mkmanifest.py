#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks of lib/registry.py, everything else not applicable (yet)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry
T = {}
def t(pid, technique, note):
    T[pid] = (technique, note)

SVC = "TLC model checking of the service specification (Dupi.tla) and TLC validation of traces recorded from the real code against it (DupiTrace.tla)"
TRUST = " Trusted: TLC, the Go toolchain, the script driver; word hashes are taken as observed from the code (their stability is P23)."
t("P01", SVC, "All pairs of documents of every generated index, shared runs at every position, sessions, lists spanning several chunks, are judged by the specification. Bounded by the generated workloads; the abstract model is exhaustive for 2 roots, 3-4 sessions." + TRUST)
t("P02", "TLC model checking of Posting.tla (chunked delta lists, sessions) + replay of TLC-simulated behaviours on real indexes + trace validation against Dupi.tla", "Exhaustive for small chunk sizes in the model; on the code, every fingerprint of the space is looked up in every generated index (lists up to 2600, gaps of 1 to 4 varint bytes)." + TRUST)
t("P03", "TLC model checking of Posting.tla + replay of TLC-simulated session histories + trace validation against Dupi.tla", "Session splits at all kinds of list lengths around the chunk size, empty sessions; each compared with the specification, which is independent of the split." + TRUST)
t("P04", "TLC model checking of the concurrent pipeline (Pipeline.tla: safety and liveness under fairness) + trace validation of recorded concurrent runs with varied timing", "The model covers all interleavings within its bounds; the code is sampled under many schedules (GOMAXPROCS, documents of very different processing time, race detector in the thorough tier)." + TRUST)
t("P05", "TLC model checking of Fnames.tla and DocTable.tla + trace validation against Dupi.tla and DocTableTrace.tla", "Model exhaustive for all sequences of up to 5 insertions over 7 paths and small buffers; code driven with generated path sets, offsets up to 2^32-1, and buffer boundaries." + TRUST)
t("P06", "TLC model checking that the cursor design (Cursor.tla) refines the abstract enumeration + replay of TLC-simulated call sequences on real indexes + trace validation", "Model exhaustive for small shards and all buffer sequences; the code executes simulated behaviours plus random and dense indexes." + TRUST)
t("P07", "TLC model checking of Readers.tla (shared handles) + TLC validation of results recorded from concurrent readers", "Every concurrent result must be the one the specification gives for that operation alone. Schedules of the code are sampled, not enumerated." + TRUST)
t("P08", "TLC model checking of Lock.tla (safety, liveness) + trace validation of multi-process executions against it", "Grants that conflict, or waits that do not end, are violations; schedules generated from the specification." + TRUST)
t("P09", "TLC model checking of Lock.tla with failing attempts + trace validation of multi-process executions with injected causes of failure", "Causes of failure enumerated one by one." + TRUST)
CRASH = "TLC model checking of Commit.tla (order of the files) and Posting.tla (chunks of lists) with a crash%s at every operation + %s of real sessions one by one (hooks in the standard library's syscall package, build overlay), each history judged by TLC against CrashTrace.tla"
t("P10", CRASH % ("", "killing the process at file operations"), "Crash points are enumerated at the level of file operations (process death, not power loss): the first and last operation of every kind on every kind of file, torn writes, and a sample of those between." + TRUST)
t("P11", CRASH % ("", "killing the process at file operations"), "As P10; also two crashed sessions in a row, and reading and appending afterwards." + TRUST)
t("P12", "TLC enumeration of all short texts over rune classes from Tokens.tla, each executed on the code and judged against the specification", "Exhaustive up to the stated length over rune classes, plus long random texts and all single runes." + TRUST)
t("P13", "TLC model checking of Window.tla + traces of the blotters and of query fingerprints validated against it", "Histories, interleavings and window lengths generated." + TRUST)
t("P14", "trace validation of locate calls against DupiTrace.tla (locatein, passages)", "All windows of generated documents, also for documents that are parts of files." + TRUST)
t("P15", SVC, "Sums are exact integers in the specification; mean and deviation compared in fixed point." + TRUST)
t("P16", SVC, "A grid of valid and invalid configurations; rejected ones must leave nothing behind." + TRUST)
t("P17", "TLC model checking of the walk (MCWalk over Commands.tla) + trace validation of command executions against CommandsTrace.tla", "Generated trees." + TRUST)
t("P18", "TLC model checking of the cut-off arithmetic (MCExtract, MCBigNat) + trace validation of command executions against CommandsTrace.tla", "Generated indexes; thresholds decided in exact big-number arithmetic of the specification." + TRUST)
t("P19", "TLC model checking of Dupi.tla + trace validation of command executions against CommandsTrace.tla", "Generated corpora." + TRUST)
t("P20", "TLC model checking of Dupi.tla + trace validation of command executions against CommandsTrace.tla", "Generated corpora." + TRUST)
t("P21", SVC, "Copies, moves and path spellings; exclusion between spellings over processes." + TRUST)
t("P22", SVC, "Removal through every kind of session; neighbours must survive." + TRUST)
t("P23", "TLC trace validation (DupiTrace.tla) of the current code on indexes written by the released version (golden files)", "12 stored indexes (sessions, chunked lists, gaps of 1 to 4 bytes, totals of 1 to 3 bytes, long and odd paths, offsets up to 2^32-1) fix the hash function, the window and all file formats; read in full, appended to and read again." + TRUST)
t("P24", CRASH % (" or failure", "failing the file operations"), "Failing operations enumerated like the crash points: one alone, all from there on, short writes, and failures of closing." + TRUST)
t("P25", "TLC model checking of Bloom.tla + trace validation of the exported filter operations", "Generated operation sequences and sizes." + TRUST)
t("P26", "TLC model checking of Trigram.tla + trace validation (TrigramTrace) of trigrams of texts enumerated by TLC and generated", "Texts up to a length over kinds of characters, and random ones." + TRUST)
t("P27", "trace validation (CommandsTrace) of the program's executions and of the indexes it makes", "Generated files." + TRUST)

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bin/setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        m["checks"].append(dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="VERIF_TIER=thorough bin/check " + i,
                                technique=T[i][0], level=registry.LEVELS.get(i, "model_checking"), level_note=T[i][1]))
    else:
        m["not_applicable"].append(dict(property=i, reason="not claimed yet: check under construction"))
m["notes"] = "Specifications in spec/*.tla (TLA+, checked with TLC); no hooks in /repo: the checks use exported API, command line and files, built from /repo's working tree through a build overlay."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
