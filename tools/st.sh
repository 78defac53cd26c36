#!/bin/bash
# st.sh standins/x.cpp [secs] [proof]: build and run a native harness
f=$(realpath $1); s=${2:-5}; b=/tmp/st_$(basename $f .cpp)
python3-vt - "$f" "$b" <<'P' || exit 1
import sys; sys.path.insert(0,'/verif'); f,b=sys.argv[1:3]; sys.argv=['x']
import check; e=check.build_native(f,b,'standin')
if e: print(e); sys.exit(1)
P
d=$(mktemp -d); cd $d
for p in ${3:-$(grep -oP '^VC_PROOF\(\K\w+' $f)}; do ASAN_OPTIONS="handle_abort=1:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096" timeout $((s*2+60)) $b search $p ${SEED:-1} $s $d/l 2>/tmp/st.err | cut -c1-300; grep -m2 "ERROR: Addr\|runtime error" /tmp/st.err; grep -m3 "#[1-6].*repo" /tmp/st.err; done
rm -rf $d
