import json,glob
print("## 8. Planted bugs\n\nAll seeds in seeded (applied to a scratch copy, tests pass, demo fails) and the check that catches them:\n")
print("| seed | needs | caught by |\n|---|---|---|")
import os
for d in sorted(glob.glob('seeded/*')):
    m=json.load(open(d+'/meta.json')); print("| %s | %s | %s |"%(os.path.basename(d),m['needs'],m['property']))
