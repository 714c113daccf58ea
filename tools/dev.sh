#!/bin/bash
D=; cd /verif/engine/build/bc; H=$1; shift; if [ -n "${BIG:-}" ]; then D=-DBIG; mkdir -p big; cp -p repo.bc big/; cd big; set -- --tmp /tmp/wbig "$@"; fi; S=$(readlink -f /verif/engine/build/symx); clang++ $D -std=c++17 -O1 -fno-builtin -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-pic -include /verif/model/noextern.h -I/repo/include -I/repo/src -emit-llvm -c -w /verif/harness/$H.cpp -o $H.bc || exit 9
for f in model/rt_stl model/more model/env harness/common harness/native harness/generic; do if [ /verif/$f.cpp -nt $(basename $f).bc -o /verif/model/env.h -nt $(basename $f).bc -o /verif/harness/generic.h -nt $(basename $f).bc -o /verif/harness/native.h -nt $(basename $f).bc -o /verif/harness/common.h -nt $(basename $f).bc ]; then clang++ $D -std=c++17 -O1 -fno-builtin -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-pic -include /verif/model/noextern.h -I/repo/include -I/repo/src -emit-llvm -c -w /verif/$f.cpp -o $(basename $f).bc || exit 9; fi; done
$S --repo repo.bc --support rt_stl.bc --support more.bc --support env.bc --support common.bc --support native.bc --support generic.bc --support $H.bc --entry harness --out /tmp/r.json "$@"; echo rc $?
python3 -c "
import json;d=json.load(open('/tmp/r.json'));d.pop('functions',None);v=d.pop('violations');s=d.pop('samples');print(json.dumps(d,indent=1)[:3500])
for x in v: print('VIOL',x['kind'],x['label'],x['message'],x['where']); print(x['stack']); print([i for i in x['inputs']],x['schedule']); print('\n'.join(x['notes']))
"
