#!/bin/bash
# sx.sh CRATE ENTRY [args]: run one harness, summary (development)
/tmp/p/symex/release/symex /verif/build/t-$1/release/deps/h$1.ll --entry $2 --repo ws/ "${@:3}" > /tmp/p/out.$2.json || exit 1
python3 - /tmp/p/out.$2.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
L=d.pop('lines'); S=d.pop('samples')
print(json.dumps({k:v for k,v in d.items() if k not in('findings',)},indent=None))
for f in d["findings"][:2]: f["stack"]=[x.split("/")[-1][:60] for x in f["stack"]][:12]; print("FINDING",json.dumps(f)[:1500])
print(len(L),"lines", len(S),"samples", str(S[:1])[:300])
P
