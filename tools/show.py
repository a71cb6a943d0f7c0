"""print a replay file's trace: show.py FILE [signal-substring...]"""
import json, sys
d = json.load(open(sys.argv[1]))
print({k: v for k, v in d.items() if k not in ("trace", "outputs")})
for t, (i, o) in enumerate(zip(d["trace"], d["outputs"])):
    print(t, " ".join("%s=%x" % (k, v) for k, v in i.items() if not sys.argv[2:] or any(a in k for a in sys.argv[2:])), "|",
          " ".join("%s=%x" % (k, v) for k, v in o.items() if not k.startswith(("cover_",)) and (v or k.startswith("w_")) and (not sys.argv[2:] or any(a in k for a in sys.argv[2:]))))
