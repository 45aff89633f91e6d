"""Writes MANIFEST.json."""
import json, os

T = "TLA+ specification checked with TLC; "
REPLAY = "behaviours and cases of the specification replayed on the code, every recorded call judged by the specification (trace checking in TLC)"
NOTES = {
 "A01": "every place where a reference may stand x kinds of targets, generated documents",
 "A02": "every place x every addressable part of the object model, with every spelling of the document",
 "A03": "all reference graphs over few nodes, with cycles and long chains; judged also by a second formulation of resolution",
 "A04": "every place x external, unsupported and chained references, with the warnings compared",
 "A05": "every place and target under renamings to colliding and other names",
 "A06": "pairs of places, shared objects, several validators and documents in every order",
 "A07": "every state and action of a machine of documents with validators, and random histories",
 "A08": "every constructor x names x documents, equality and hashing of pairs",
 "A09": "every addressable part, every reference place, all small reference graphs, chains, live documents between changes",
 "B01": "every documented place x references, pairs and generated documents, with warnings",
 "B02": "every documented place x references, pairs and generated documents, with warnings",
 "C01": "every transition of a life cycle machine, every class x field x value, random histories of all classes",
 "C02": "every transition of a life cycle machine, rebuilding after random histories of all classes",
 "C03": "every transition of a collection machine on every collection class, which TLC also checks against an abstract ordered map; random histories",
 "C04": "every place that can hold an object x ways of placing it, invalidated objects, random pools of objects",
 "C05": "every collection class x characters and positions x ways of filling it, all short strings",
 "C06": "every extendable, closed and open class x names x ways of giving them",
 "C07": "every transition of a machine of copies, every class x way of copying, documents with validators, random histories",
 "D01": "every class x field x probe values, omissions, near names, random objects and documents",
 "D02": "every class x field x probe values written and read back, random objects and documents, free-form values",
 "D03": "every class x combinations of set fields, random objects and documents",
 "D04": "every class x field with a default, given, omitted, null, nested and assigned",
 "D05": "every class x spelling of its fields, pairs of spellings of documents",
 "D06": "every place with alternatives x shapes of data",
 "D07": "every class and place with JSON text against data, with validators",
 "E01": "the complete grid of field values, assignments between its points, nestings; rule stated twice and compared",
 "E02": "the complete grid of flows, assignments, nestings, in-place changes; rule stated twice and compared",
 "E03": "grids of addresses and parameters, all short addresses over an alphabet, assignments in every order; rule stated twice and compared",
 "E04": "grids of binding fields, every limit with its neighbours, assignments and nestings; rules stated twice and compared",
 "E05": "all short strings over token alphabets (predicates compared with automata), near misses, long strings, every way of giving them",
 "F01": "every transition of a machine of documents with processors, all pairs of short lists, random histories, with the log of runs compared",
 "F03": "every list of shipped validators with every document of a machine, random documents and lists, instances reused",
 "F02": "every transition of a machine of built documents, arguments and overrides, histories of several documents",
}
checks = [{"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
           "evidence_file": "evidence/%s.json" % p, "technique": T + REPLAY, "level": "model_checking",
           "level_note": "TLC explores the specification within the stated bounds; conformance covers " + n + ". Trusted: the specification as statement of intent, TLC, and the observation functions of the harness."}
          for p, n in sorted(NOTES.items())]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": [],
               "notes": "No hooks in /repo; its fix: commits are listed in known_findings.json. A replay file is run again with: python3 run.py replay <file>."}, f, indent=1)
    f.write("\n")
