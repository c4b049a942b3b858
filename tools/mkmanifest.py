"""Write MANIFEST.json from the list of properties"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "TLC: encoder/decoder model exhaustive for short data; runs of the real encoder and decoder on lengths and contents around every boundary of the code table validated against the specification",
 "C02": "as C01; the written code stream is judged by the specification's LZW machine. Known finding: the end code may be cut off",
 "C03": "TLC: decoder model in step with any encoder; all short code streams replayed, long generated streams validated",
 "C04": "TLC: all short code streams including undefined codes and surplus replayed; damaged long streams validated",
 "C05": "random and structured inputs, four interfaces; shape of every run validated against an automaton",
 "C06": "TLC: all short files over a block alphabet replayed; generated files validated",
 "C07": "TLC: layout and reading inverse; generated blocks validated byte for byte",
 "C08": "TLC: all short block sequences against a declarative definition, replayed; generated files validated",
 "C09": "TLC: all placements on a small screen replayed; generated pictures validated, every interlaced height to 40",
 "C10": "TLC: all pairs of small frames and disposal methods against a declarative definition, replayed; generated animations validated",
 "C11": "TLC: every small rectangle, table and index replayed; generated files validated",
 "C12": "TLC: all small numbers of steps and loop counts replayed; counts to the end up to 65,535 and animations of 65,537 steps validated",
 "C13": "TLC: all sequences of four calls, replayed; generated calls and output validated",
 "C14": "TLC: all short step sequences replayed; generated ones validated through the specification's decoder",
 "C15": "TLC: all short transfer schedules with faults, replayed; generated files with schedules and failures at every byte validated",
 "C16": "TLC: encoder on a failing writer; runs with schedules and failures at every byte validated",
 "C17": "limits around the product of sides; peak heap measured and validated",
 "C18": "TLC: every flags value and setter, replayed; generated call sequences validated",
 "C19": "constructor for many counts (thorough: all), recognition for many extensions, validated",
 "C20": "TLC: all short files cut at every byte, replayed; generated files cut at every byte validated",
 "C21": "runs of the command on generated files; parsed report validated",
 "C22": "generated files transcoded; both files compared by the specification's decoder",
 "C24": "TLC: liveness of a reader on a slow connection, and all short arrival schedules replayed; generated files with arrival schedules, positions of the reader, and several files in one reader, validated",
 "C25": "TLC: the test of the written bytes is exact for every encoder of short data; code streams of the real encoder validated for lengths and contents around every boundary of the code table",
 "C26": "TLC: all short sequences of additions and all pairs of some blocks replayed; generated values validated",
 "C27": "texts and sources of all errors validated",
 "C23": "TLC: all sequences of three settings replayed; generated ones validated",
}
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
man = {"version": 1,
       "setup_cmd": "cd /verif && python3 tools/setup.py",
       "checks": [], "not_applicable": [],
       "notes": "All checks: TLA+ specification in spec/, checked with TLC; bound to the code by replaying TLC-enumerated behaviours and by trace validation. No hooks in /repo. See DESIGN.md."}
for p in props:
    i = p["id"]
    man["checks"].append({
        "property": i,
        "quick_cmd": f"cd /verif && ./check {i} quick",
        "thorough_cmd": f"cd /verif && ./check {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "TLA+ specification checked with TLC; conformance of the code by replay of specification behaviours and trace validation",
        "level": "model_checking", "level_note": NOTE[i]})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
