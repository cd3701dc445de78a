"""Group the violations of the replay files of one property by monitor."""
import glob, json, os, sys, collections
g = collections.defaultdict(list)
for p in glob.glob(os.path.join(os.path.dirname(__file__), "..", "replays", sys.argv[1] + "-*.json")):
    d = json.load(open(p))
    for b in d.get("violations", d.get("bad", [])):
        g[b["monitor"]].append((os.path.basename(p), b["message"], b.get("detail")))
for k, v in g.items():
    print("==", k, len(v))
    for a in v[:4]:
        print("   ", a[0], a[1][:300].replace("\n", " "))
        if k == "raised":
            print("        ", "\n         ".join((a[2] or "").strip().split("\n")[-7:]))
