#!/bin/bash
# usage: try.sh ID [tier] [seed]: build, run, summarise (developer aid)
cd /verif; export CARGO_TARGET_DIR=/verif/target
cargo +1.87 build --offline --manifest-path harness/Cargo.toml 2>&1 | grep -E "^error|-->|warning: unused" -A6 | head -60
rm -f /tmp/o.json.cur*; time ./target/debug/cvh $1 ${2:-quick} ${3:-1} /tmp/o.json || { python3 -c "
import glob
for f in glob.glob('/tmp/o.json.cur*'): t=open(f,'rb').read().split(b'\0')[0].decode(errors='replace'); print(f, t[t.find('---- proof'):][:600])"; exit 1; }
python3 - <<'P'
import json
d=json.load(open('/tmp/o.json'))
print(d['evals'],d['distinct'])
print(str({k:v for k,v in d['counts'].items() if not k.startswith(('shape','inst')) or 'holey' not in k and 'shape' not in k})[:2500])
print('known',d['known'])
for v in d['violations'][:int(__import__('os').environ.get('NV','4'))]: print('----',v['sig'],'|',v['what'][:500]); print(v['input'][v['input'].find('---- proof'):][:900])
P
