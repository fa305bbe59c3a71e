#!/usr/bin/env python3
"""Writes known_findings.json from the tables below (run by hand; no check runs it)."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
KNOWN = [
 {"property": "P01", "id": "pts-dts-33rd-bit", "what": "time stamps of 2^32 and more lose their top bit (PresentationTimeStamp and DecodingTimeStamp are 32 bits wide, transmitted time stamps have 33 bits)"},
 {"property": "S01", "id": "scr-33rd-bit", "what": "system clock reference bases of 2^32 and more lose their top bit (SystemClockReferenceBase is 32 bits wide, the transmitted base has 33 bits)"},
]
PROP = {
 "faebc8c":"T02","23b485a":"T04","b49eed6":"T04","e9e36fe":"T01","62431e8":"T02","7425aca":"T06","6bbc757":"T06","ebe34a1":"T06",
 "61b7faf":"T05","d969dfe":"T07","9378c8b":"T07","f4e88f6":"T09","4a7b6c0":"T10","12d90c3":"P02","6bf3dd3":"P01","bda6381":"P03",
 "8b8d861":"P03","31c39ac":"X01","9c5f512":"P01","f3fe99d":"P04","1d41366":"P04","8024dd4":"S01","20730cb":"X01","a589e89":"S03",
 "59191d3":"S03","950d670":"S02","555df6a":"V03","7585af9":"V03","aaaf818":"V07","fc09000":"V02","2fc7603":"V08","92c705a":"V09",
 "7c720ee":"V08","9bdd638":"V08","35183e1":"V08","1d24406":"V08","ca3036b":"V08","4d15cb9":"V11","8ff279e":"V08","f08a38f":"V03",
 "01cf63a":"V11","1cc1487":"V06","199091f":"V10","d4e50b6":"V06","ee76c82":"V06","230ae0e":"V09","dcf0c2d":"V09",
 "e07420d":"V03","996accf":"V08","513553a":"V06"}
fixed = []
for l in reversed(subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()):
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        fixed.append(f"fixed: property={PROP[h]} {h} {s[5:]}")
def dump():
    return '{\n "known": [\n' + ",\n".join("  " + json.dumps(k) for k in KNOWN) + '\n ],\n "fixed": [\n' + ",\n".join("  " + json.dumps(f) for f in fixed) + '\n ]\n}\n'
open(os.path.join(root, "known_findings.json"), "w").write(dump())
