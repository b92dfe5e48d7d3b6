#!/usr/bin/env python3
# Source of /verif/MANIFEST.json.
import json
LAZY="stateless model checking of the real code: depth-first enumeration of all answers (type definitions, bytes) of a controlled memory and registry, on-line comparison with an executable reference model"
ENUM="exhaustive bounded enumeration of inputs driven through the real code, each compared with an executable reference model"
FAULT="fault-injection model checking: every access of every enumerated execution fails once or persistently"
T={
"P01":(LAZY,"Every type graph and byte string within the bounds of the evidence file, with every cut, another start, exact and longer input."),
"P02":(LAZY,"Every accepted execution within the bounds is repeated at exact length, cut everywhere, and with bytes added, for types, signables, storage entries and extrinsics."),
"P03":("stateless model checking of the real code with overflow checks on: all registries (dangling, cyclic), bytes, starts and failing metadata answers within bounds; hang and abort watchdog","Every enumerated execution must end with a value or an error. Stack depth and memory blow-up of a few KB of input are listed as known findings and probed separately."),
"P04":(LAZY,"All lists of extensions of 12 kinds up to length 3 and 30 kinds up to length 2 (thorough: more), all pairs of carriers of version, hash, mortality and method within one extension, all contents within the byte alphabet."),
"P05":(LAZY,"All combinations of calls, extension blobs, prefixes, tails, and lazily chosen bytes; piecewise, prefixed and unprefixed entry points compared with the reference and with each other."),
"P06":(LAZY,"All call/event-like registries of the family within the bounds."),
"P07":(LAZY,"All listed paths and near-miss paths on all shapes of the family, and all MultiSignature variants of the family."),
"P08":(LAZY,"All names, type names and paths of the catalogue on all shapes within the bounds, as types and as extensions."),
"P09":(ENUM,"All hasher lists up to 3 over all 7 hashers, all key shapes of the family, right keys, every flipped bit, every cut and longer keys."),
"P10":(ENUM,"All version bytes against 7 metadata versions, all assembled extrinsics of the family, and lazily chosen bytes. Data left after the call is a known finding."),
"P11":(ENUM,"All digit counts 1..39 with all listed digit patterns, decimals and widths; exact decimal arithmetic on text as the oracle."),
"P12":("stateless model checking of the real code: all decoded values within the bounds are turned into cards and compared with a reference card printer","Card content, indentation, order, both text forms, three chain specs, texts around every length boundary."),
"P13":("stateless model checking of the real code: every enumerated execution is repeated on memories with 5 page layouts and with other bytes where nothing was read","Results, errors and error texts must be equal."),
"P14":(FAULT,"Every read and every type lookup of every enumerated execution fails, once and persistently; the parse must give an error."),
"P15":(ENUM,"All version constants, metadata layouts and extrinsic types of the families, V14 and V15; all ordered pairs of members in the version structure."),
"P16":(ENUM,"All first bytes with structured rests, all numbers near powers of two in every spelling, for every reader of compacts."),
"P17":(ENUM,"Every bit count up to the bound for all 8 store/order pairs, every single bit and 6 patterns; wrong store and order types; also run in a 32-bit build."),
"P18":(ENUM,"All 65536 byte pairs - the whole input space."),
"P19":(LAZY,"All docs and path placements of the family within the bounds."),
"P20":(LAZY,"All nestings of compacts over 31 leaf types within the bounds."),
"P21":("model checking of operation histories: all sequences of operations up to a depth, each in a fresh process, and all nestings of one parse inside every access of another","Every result must equal the result of the same operation alone in a fresh process."),
"P22":("model checking of three builds (64-bit std, 64-bit no_std, 32-bit no_std): the same exploration in each, digests of all results compared scenario by scenario","All executions of the families in all three builds give the same results, errors, texts and cards."),
"P23":(LAZY,"All type graphs with back references up to the bound, and recursive data of every depth up to the bound."),
"P24":(LAZY,"All element types of the family in sequences and arrays within the bounds, all element counts the bytes give."),
"P25":(LAZY,"The error kind, position, and id of every failing execution within the bounds, and the numbers in its text, and the words that name the condition."),
}
NA={}
import sys,os
if not os.path.exists('/verif/mc/src/bare.rs'): NA["P22"]="check not built yet"
checks=[dict(property=p,quick_cmd=f"./check.sh {p} quick",thorough_cmd=f"./check.sh {p} thorough",technique=t,level="model_checking",
  level_note=n+" Nothing is sampled: the choice tree is enumerated completely within the bounds. Trusts the reference model in /verif/mc/src/eng and the listed bounds.") for p,(t,n) in T.items() if p not in NA]
json.dump(dict(version=1,setup_cmd="./build.sh",hooks=dict(guard="none",enable="no hooks: everything is reached through the public interface",source_commits=[]),
 checks=checks,not_applicable=[dict(property=p,reason=r) for p,r in NA.items()],
 notes="Engine, reference model and families: /verif/mc. Known findings: /verif/known_findings.txt. See DESIGN.md."),open('/verif/MANIFEST.json','w'),indent=1)
