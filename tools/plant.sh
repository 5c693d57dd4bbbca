#!/bin/bash
# tools/plant.sh ID [prop...]: confirm seeded/ID in a scratch copy of /repo: builds, tests pass, demo 0 -> nonzero,
# and run the given checks (default: the property in meta.json) against it.
id=$1; shift
S=/verif/seeded/$id; W=$(mktemp -d /tmp/plant.XXXXXX); trap "/bin/rm -rf $W" EXIT
cp -a /repo/. $W/
cd $W
bash $S/demo.sh >/tmp/demo.$id.clean 2>&1; c=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash $S/demo.sh >/tmp/demo.$id.bug 2>&1; b=$?
t=ok
if [ -z "$NOTEST" ]; then
export CCACHE_DIR=/tmp/plant.ccache
rm -f obj/test/*.o bin/test
if ! make -j8 CXX="ccache clang++" bin/test >$W/mk.log 2>&1; then t="BUILD-FAIL"; grep error $W/mk.log | head -3
else
  for o in obj/test/*.o; do [ "$o" = obj/test/performance.o ] || nm -C --defined-only "$o"; done | sed -nE 's/^[0-9a-f]+ T (.*::)?test_(.*)_body\(\)$/\2/p' | sort -u > $W/names
  bad=$(xargs -a $W/names -P 8 -I{} bash -c 'timeout 300 bin/test {} 2>&1 </dev/null | tail -n 1 | grep -q "^1 of 1 tests passed" || echo {}' )
  [ -n "$bad" ] && t="TESTS-FAIL: $(echo $bad | head -c 200)"
  make CXX="ccache clang++" test FILTER=no_such_test >/dev/null 2>&1 || t="$t ERRORS-FAIL"
  make CXX=clang++ cuda_build_test >/dev/null 2>&1 || t="$t CUDA-FAIL"
  (OPT="-O2 -march=x86-64-v3 -ffast-math -fstrict-aliasing"; make -B -C examples/linear_algebra CXX=clang++ CFLAGS="$OPT -fno-exceptions -DNDEBUG" bin/matrix bin/conv2d_relu && cd examples/linear_algebra && bin/matrix && ! (bin/conv2d_relu | grep -q '!=')) >$W/ex.log 2>&1 || t="$t EX-FAIL"
  (CXXFLAGS="-include cstdlib -include cstring -Wno-deprecated-declarations" make -B -C examples/resample CXX=clang++ CFLAGS="-O2 -march=x86-64-v3 -ffast-math -fstrict-aliasing" bin/resample && cd examples/resample && mkdir -p test_outputs && for k in box linear quadratic cubic lanczos; do timeout 120 bin/resample test_inputs/small.png 800 600 $k test_outputs/p_$k.png || exit 1; done) >$W/ex2.log 2>&1 || t="$t RESAMPLE-FAIL"
fi
fi
ps="$@"; [ -z "$ps" ] && ps=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
r=""
for p in $ps; do
  cd /verif; VF_NOEVIDENCE=1 VF_REPO=$W python3 check.py $p >/tmp/chk.$id.$p 2>&1; r="$r $p=$?"
done
echo "$id demo clean=$c bug=$b tests=$t checks:$r"
