#!/usr/bin/env python3
"""(re)writes known_findings.json: one "fixed" entry per fix: commit of /repo, plus the findings recorded but not repaired"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for p, hs in {
 "C01": "b504247 f83e9f5", "C02": "bab34ce b101368",
 "C03": "7e543b3 f475f4d ee58e0c b2ea4ad 8da3bbf 2085bb4 698177c d51eeb6 a94af5a 2841a3d 9bc398a",
 "C04": "e0c0fcb 9739025 afb11cd 004a006 5ce71bf c7127a5 eb798f7 2d0b7d6",
 "C06": "444c5ad f668820 494d8fd", "C07": "02fbc2c 8a0d051 ab12a53",
 "C08": "63e7e2c 7bcac77 54f06e8 b5fe4f6 bfc9c46 d24fd8b f1a61bb",
 "C09": "a7c57d2 d5a1581 c43ddce 6e8cc84 c94fbf3 105c4ac", "C10": "5b2e354 8916bec d438aa9 c199fc6 0b9389e",
 "C11": "70b0d4a d863739 e03bc46", "C12": "ef53545", "C13": "d775699", "C15": "1cd535b d7e9c4c",
 "C16": "888d3bb ec2beaf 4752beb adf1a9b a7c6260 b9562a2 ed24674 82cc3be 5ee017a d0fbd5b e316aad",
 "C17": "911533a 84d3586 b276cde", "C18": "3867461 607342a fb5e819 51182a3 dddc306 d4ad2ab",
 "C19": "791ba35 ce13727 82e2f26 e7bcbfb b59a6ed 61eff6f 3f8fec4 560dac5",
 "C20": "673a0ee 7729675 3151190 3a8154f", "C21": "40a101d e0970de 797befc 45c0bd8",
 "C22": "e069b94 2bb9f39 3a6b136 c07075d 69ddc74 0eb6cef 102d5b0 21cbf97"}.items():
    for h in hs.split(): PROP[h] = p
EXTRA = os.path.join(HERE, "tools", "fixprops.json")       # later fixes: {hash: property}
if os.path.exists(EXTRA): PROP.update(json.load(open(EXTRA)))
KNOWN = os.path.join(HERE, "tools", "known_unfixed.json")
log = subprocess.check_output(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h\t%s", "a70d929..HEAD"], text=True)
out = []
for l in log.splitlines():
    h, s = l.split("\t", 1)
    if not s.startswith("fix: "): print("not a fix:", h, s); continue
    if h not in PROP: print("no property given for", h, s); continue
    out.append({"kind": "fixed", "property": PROP[h], "commit": h, "what": s[5:], "entry": "fixed: property=%s %s %s" % (PROP[h], h, s[5:])})
if os.path.exists(KNOWN): out += json.load(open(KNOWN))
json.dump(out, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(out), "entries")
