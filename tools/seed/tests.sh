. /opt/vp/env.sh; cd /tmp/sb
for d in /verif/seeded/${1:-b}*; do git checkout -q -- .; git apply $d/patch.diff || echo APPLYFAIL; 
 r=$(cargo test --workspace --exclude integration_tests --no-fail-fast --locked --offline -- --test-threads 8 2>&1 | grep -E "^test .* FAILED|^test result|^error" | sort | uniq -c | tr '\n' ';'); echo "$(basename $d) $r"; done; git checkout -q -- .
