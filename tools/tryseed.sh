#!/bin/bash
# tryseed.sh ID...: in a scratch clone of /repo confirm that a planted bug counts (applies, tests pass,
# demo 0 without and nonzero with it). Needs SCRATCH=<clone of /repo>.
R=${SCRATCH:?}
for id in "$@"; do
 d=/verif/seeded/$id
 git -C $R checkout -q -- . && git -C $R clean -fdq
 (cd $R && bash $d/demo.sh >/tmp/ts.$$.a 2>&1); a=$?
 git -C $R apply $d/patch.diff || { echo "$id NO APPLY"; continue; }
 (cd $R && bash $d/demo.sh >/tmp/ts.$$.b 2>&1); b=$?
 t=$(cd $R && RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true cargo test -q --workspace --exclude cavalier_contours_ui --offline 2>&1 | grep -cE "FAILED|^error")
 git -C $R checkout -q -- .
 echo "$id clean=$a patched=$b testfails=$t"
 [ $a = 0 ] || tail -5 /tmp/ts.$$.a
 [ $b != 0 ] && [ $t = 0 ] || tail -5 /tmp/ts.$$.b
done
