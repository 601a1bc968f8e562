#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property in CLAIMED, the others under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODEC = "TLA+ state machine of the codec (AperCodec/Aper) checked by TLC; its behaviours replayed on the library, recorded runs validated by TLC (AperTrace)"
NOTE = {}
for k in range(1, 10):
    NOTE["C%02d" % k] = (CODEC, "exhaustive within the scopes of AperFamilies.tla (boundary values, sizes, bit offsets, faults), seeded random recorded traces beyond them")
DERIVED = "TLA+ state machine of messages of composed types (AperMessages/AperTypes) checked by TLC; behaviours replayed on derived codecs, recorded messages validated by TLC (AperMessagesTrace)"
for k in range(10, 16):
    NOTE["C%02d" % k] = (DERIVED, "a universe of fixed and seeded random types with boundary values, extensions, faults and arbitrary octets, exhaustively within it")
NOTE["A01"] = ("TLA+ state machine of the tokenizer (Lexer) checked by TLC over a trie of texts (LexerTexts); every text replayed on the tokenizer, recorded texts validated by TLC (LexerTrace)",
               "all texts of a bounded number of pieces from nine alphabets, seeded longer texts and pieces of the bundled ASN.1 beyond them")
COMPILER = "TLA+ specification of what a set of ASN.1 modules defines (Asn1) checked by TLC over a family of modules (%s); every module of it compiled by the real compiler and the generated code compared with the specification's"
for p, f, d in (
        ("A03", "Asn1Constraints", "value and size constraints of up to two atoms per operator over boundary numbers, values and markers; sampled beyond them"),
        ("A04", "Asn1Numbers", "bounds at and next to every power of two that matters, in the root and in additions"),
        ("A05", "Asn1Sequences", "all sequences of up to a number of components of every kind, with markers, additions and groups"),
        ("A06", "Asn1Choices", "all choices of up to a number of alternatives, with markers, additions and groups"),
        ("A07", "Asn1Enums", "all enumerations of up to a number of items with and without numbers and additions"),
        ("A08", "Asn1References", "all reference graphs of a bounded number of definitions spread over up to three modules in every order"),
        ("A09", "Asn1Objects", "classes, objects, sets, unions, nested sets and sequences that use them within the bounds of the family"),
        ("A10", "Asn1Params", "definitions with up to three parameters, instantiated with every kind of actual parameter, shadowed, nested and repeated"),
        ("A13", "Asn1Values", "value definitions and chains of references used at every place a value can stand")):
    NOTE[p] = (COMPILER % f, "exhaustive or sampled by TLC within the family: " + d)
NOTE["A02"] = ("TLA+ specification of texts as edited token sequences and nested types (Asn1Texts, Asn1Nests) whose behaviours TLC generates, with the verdict the specification admits; every text given to the real compiler, which must end as admitted",
               "valid modules with every token dropped, replaced, repeated or cut, sampled further edits, deep nesting, pieces of the bundled specifications")
NOTE["A12"] = ("TLA+ specification of compilation to wire types (Asn1, Asn1Wire) composed with the specification of the wire format (AperTypes), checked by TLC; messages it generates replayed on the code the real compiler generates, which is compiled with the real derive macros",
               "seeded random modules and modules with names that mean something in Rust, boundary values of their types")
NOTE["A11"] = ("TLA+ state machine of compilers that live side by side (Asn1Session) checked by TLC; its histories replayed on the real compiler, and the recorded events of histories and of processes of their own validated by TLC (Asn1SessionTrace)",
               "all short histories of pools of files with right and wrong ones, sampled longer ones, repeated processes on random modules and the bundled specifications")
NA = {}
CLAIMED = sorted(NOTE)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --selfcheck", "checks": [], "not_applicable": []}
for p in props:
    if p in NOTE:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": NOTE[p][0], "level": "model_checking", "level_note": NOTE[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "not built yet")})
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
