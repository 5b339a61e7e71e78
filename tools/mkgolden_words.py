#!/usr/bin/env python3
"""Writes golden/words.json: words with unusual letters and the hashes the
released version (commit 317b483) computes for them.  Run once:
  VERIF_REPO=/tmp/m/base python3 tools/mkgolden_words.py"""
import json, os, random, sys, unicodedata
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import vlib
chk = vlib.Check("P23")
rng = random.Random(5)
ok = [chr(i) for i in range(0x110000) if not 0xd800 <= i < 0xe000 and unicodedata.category(chr(i)) in ("Lu", "Ll", "Lt", "Lo", "Lm", "Nd", "No", "Nl", "Mn", "Mc")]
odd = [c for c in ok if len({c.lower(), c.upper().lower(), c.title().lower(), c.casefold()}) > 1
       or len(c.lower().encode()) != len(c.encode()) or len(c.upper().encode()) != len(c.encode()) or unicodedata.category(c) == "Lt"
       or unicodedata.normalize("NFKC", c) != c and c.isalpha() and rng.random() < 0.05]
ws = odd + ["a%sb" % c for c in rng.sample(odd, 200)] + rng.sample(ok, 600) + ["".join(rng.choice(ok) for _ in range(rng.randint(2, 6))) for _ in range(300)]
ws += ["Az09", "STRASSE", "straße", "ΣΊΣΥΦΟΣ", "σίσυφος", "İstanbul", "ISTANBUL", "ıSTANBUL", "K", "é", "e\u0301", "x" * 1000, "\u00e5\u212b\u0041\u030a"]
h = chk.run_scripts([[dict(Op="hash", Words=ws)]])[0][0]["hash"]
json.dump([[w, x] for w, x in zip(ws, h)], open(os.path.join(V, "golden", "words.json"), "w"))
print(len(ws), len(odd))
