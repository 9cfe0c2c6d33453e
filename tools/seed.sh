#!/bin/bash
# Planted bugs (seeded/ID), for the author only; no check reads them.
#   seed.sh verify ID...      in a scratch copy: applies, builds, stable tests pass,
#                             demo passes without and fails with the patch
#   seed.sh catch ID [PROP..] applies to /repo, runs the property's check, undoes
cd "$(dirname "$0")/.." || exit 2
cmd=$1; shift
case $cmd in
verify)
    W=/tmp/seedverify
    rm -rf /tmp/seedverify; cp -a /repo /tmp/seedverify
    for id in "$@"; do
        git -C $W checkout -q -- .
        bash -c "cd $W && bash $PWD/seeded/$id/demo.sh" >/tmp/seed.$id.clean 2>&1; a=$?
        git -C $W apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
        (cd $W && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8) >/tmp/seed.$id.test 2>&1
        t=$(grep -c '^test .* ok$' /tmp/seed.$id.test); f=$(grep '^test .*FAILED$' /tmp/seed.$id.test | head -3 | tr '\n' ' ')
        bash -c "cd $W && bash $PWD/seeded/$id/demo.sh" >/tmp/seed.$id.bug 2>&1; b=$?
        if [ $a = 0 ] && [ $b != 0 ] && [ -z "$f" ] && [ "$t" -ge 73 ]; then echo "$id: good ($t tests)"; else echo "$id: BAD clean=$a bug=$b ok=$t failed=$f $(grep -m1 '^error' /tmp/seed.$id.test)"; fi
    done
    git -C $W checkout -q -- . ;;
catch)
    id=$1; shift
    props=${*:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 2
    for p in $props; do
        out=$(./check.sh "$p" 2>&1); rc=$?
        echo "$id $p rc=$rc $(echo "$out" | grep -m1 -v VIOLATION | cut -c1-200)"
    done
    git -C /repo checkout -- . ;;
esac
