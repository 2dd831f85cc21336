import json,sys
for c in sys.argv[1:]:
  d=json.load(open(f"/verif/evidence/{c}.json"))["coverage"]
  print(c,{k:d[k] for k in ("obligations","discharged","agreeing","undecided","violated")})
  seen=set()
  for u in d["undecided_items"]:
    k=(u["construct"],u["why"][:60])
    if k in seen: continue
    seen.add(k); print("   ",u["construct"][-34:],u["case"],'|',u["why"][:160])
