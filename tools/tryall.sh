# tryall.sh <timeout> <profile> <features>...: run every harness, one line each
cd /verif; . tools/env.sh
t=$1 p=$2; shift 2
rm -f /verif/target/t1/*/deps/heng.bc; for f in "$@"; do echo "== $f $p"; bc $f $p >/dev/null; BC=/verif/target/t1/$p/deps/heng.bc T=$t sx all 2>&1 | grep "^h_\|VIOL\|rror" | grep -v "^    "| cut -c1-250; done
