#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run in /verif)."""
import json, subprocess
T = "deterministic simulation with fault injection: seeded search over "
CH = {
"C01": (T+"thread interleavings at token, allocation, inline-data and diagnostic points, histories of finished, failed and abandoned parses, and reused buffers; oracle: the same parse alone in a freshly forked process",
  "Sampled interleavings and histories of up to 4 threads; thread switches at hook points and allocations only, sequentially consistent memory."),
"C02": (T+"crash points (unwinding injected at every kind of parser step); oracle: prefix of the undisturbed parse's diagnostics and equality of the retried parse",
  "Sampled crash points, up to every step of short texts; crashes come as unwinding panics at hook points."),
"C03": (T+"sink failures (full disk, short write, failure at byte N) under the renderer; oracle: independent line/column reference renderer conditions and the healthy rendering",
  "Healthy output is judged for level, message, line number and excerpt of each diagnostic and note, not for decoration."),
"C04": (T+"cut points of delivered scripts (torn at any byte); oracle: statements and diagnostics of the complete script",
  "Sampled scripts; every cut of short scripts."),
"C05": (T+"cut points inside statements, strings, comments and brackets; oracle: the sender's record of what was complete",
  "Sampled scripts; every cut of short ones."),
"C06": (T+"word loss, duplication, swap and replacement inside one message of a script; oracle: the undamaged script's other statements",
  "Sampled damage; statements whose grammar contains terminators, quotes or comment marks are damaged only outside of these."),
"C07": (T+"arbitrary damage (truncation, bit flips, loss, duplication, reordering, splicing, deep nesting) with a step, memory and stack watchdog",
  "Optimised build with overflow checks and debug assertions on a 2 MiB stack; five operator chains of tens of thousands of links are known findings."),
"C08": (T+"the same arbitrary damage; invariant over every position and name in what is returned",
  "Positions and names are read from the Debug form of the statements and from Spanned; excerpts from the diagnostics."),
"C09": (T+"message loss, duplication, reordering and filler between messages; oracle: the delivery log and each statement parsed alone",
  "Statement generator covers every statement kind the grammar has; supported forms are those the parser takes alone."),
"C10": (T+"message loss, duplication, reordering; oracle: conservation of names, literals and placeholders against the delivery log",
  "Generator knows value and position of every name, literal and placeholder it sends."),
"C11": (T+"batch boundaries, retries, reused collections and entry points; oracle: one call over everything",
  "Sampled splits of sampled scripts, error statements included."),
"C12": (T+"torn, lost, duplicated and corrupted inline bulk data and end lines; oracle: an executable model of the bulk protocol",
  "Sampled data, biased to backslashes, periods, CR, terminators and quotes."),
"C13": (T+"lost, duplicated, reordered and torn delimiter commands; oracle: an executable model of the current terminator and the same statements under the default one",
  "Sampled histories of delimiter commands."),
"C14": (T+"damage, endless repetition and abandoned parses under a counting allocator; invariant: fixed budgets per byte and no live bytes afterwards",
  "Budgets are fixed multiples (2 tokens, 1 diagnostic, 4000 bytes requested per byte of text), two to three times the largest need seen; processor time between tokens is not measured."),
"C20": (T+"delivered scripts (messages lost, duplicated, reordered) whose expressions a client renders from a tree; oracle: the tree itself under the documented precedence table",
  "MariaDB's table; for the other dialects the part all agree on. Membership tests and LIKE next to other comparisons are sent in brackets."),
"C21": (T+"damage of bytes and words around strings and delivery faults; oracle: an independent decoder of the text at each string's position",
  "Only quotes are decoded: other backslash escapes are part of the value, as the library documents by its behaviour."),
"C22": (T+"relays that rewrite case, layout and comments of valid and damaged scripts; oracle: the same words as the client sent them",
  "Sampled rewritings; words are those the client sent, so a relay never joins or splits them."),
"C24": (T+"damage and delivery faults, the same delivery to two receivers with different style options; oracle: equality apart from added warnings",
  "Sampled texts; which lower-case keywords are warned about is not prescribed, only that each added diagnostic is a warning about one bare word."),
"C25": (T+"damage and delivery faults; oracle: an independent table of what each variant is written as, looked up in the text at the position of the part",
  "Variants are read from the Debug form of the statements; words the library has no field for need not be found."),
"C26": (T+"damage and delivery faults; invariant over all nodes of all returned statements, with positions from Spanned and from the Debug form",
  "Node positions are compared with the positions of their parts, so a word that no part records is outside the invariant."),
"C28": (T+"replacement of names by reserved words, arbitrary damage and delivery faults; invariant over all returned names against the table of reserved words",
  "The reserved words are those of the pinned commit."),
"C29": (T+"digits lost, repeated or overwritten in delivered numbers; oracle: exact arithmetic on the digits in the text",
  "Whole numbers between 2^32 and 2^64 may be an error or exact, depending on the width of the field."),
"C15": (T+"histories of one collection: parses finished and abandoned, own diagnostics and notes, failing sinks, replaced and shortened collections; oracle: a model log",
  "What a parse adds is taken from the same parse into a collection of its own."),
"C16": (T+"histories of an application's index of names from several delivered scripts; oracle: the same index keyed by plain strings",
  "Ordered maps only, as names have no hash; names in the places of tables."),
"C23": (T+"misrouted messages and scripts (written for other dialects and placeholder styles), damage, and one delivery to two receivers; oracle: a table of what belongs to which dialect, and equality where no difference is due",
  "The table is what the library itself reports; forms of one dialect the library takes in every dialect are not in it."),
"C27": (T+"delivery faults and damaged neighbours around every supported statement form; oracle: the delivery log",
  "The forms are those the library has a representation for and takes at the pinned commit."),
"C30": (T+"structural damage (brackets, separators, operands, clause contents and words lost, repeated or inserted) of statements among others; oracle: predicates on the words that were sent",
  "Only sequences that break one of the listed rules are judged; words are kept apart, so damage never joins two of them."),
"C31": (T+"messages whose clauses were mixed with those of others, misapplied words and arbitrary damage; oracle: a table of what excludes what",
  "The table is what the library itself reports."),
"C32": (T+"histories of settings, copies and parses of valid, misrouted and damaged scripts by several parts of an application that share a configuration; oracle: a model of the settings, texts that tell them apart, and the same parse with the options set anew",
  "Sampled histories of up to 13 steps; texts that tell options apart are a fixed table, next to the generated scripts."),
}
NA = {}
full = lambda c: subprocess.check_output(["git", "-C", "/repo", "rev-parse", c], text=True).strip()
CH = dict(sorted(CH.items()))
m = {"version": 1, "setup_cmd": "./build.sh",
 "hooks": {"guard": "cfg sql_parse_sim", "enable": "RUSTFLAGS=\"--cfg sql_parse_sim\" (set by build.sh)", "source_commits": [full("8e0ee2e")]},
 "checks": [{"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
   "technique": t, "level": "exploration", "level_note": n} for k, (t, n) in CH.items()],
 "not_applicable": [{"property": k, "reason": r} for k, r in NA.items()],
 "notes": "check.sh rebuilds the simulator against /repo's working tree. ./target/release/sim replay FILE replays a violation."}
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
