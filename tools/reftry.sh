# reftry.sh <refactor> <profile> <features> [harness]: run harnesses against a copy with a refactoring applied (SW=/tmp/sw2)
SW=${SW:-/tmp/sw2}
(cd /verif/tools && SW=$SW python3 refac.py apply $1)
rsync -a --exclude target --exclude .git --exclude evidence /verif/ $SW/verif/; mkdir -p $SW/verif/target/engine/release; cp /verif/target/engine/release/symex $SW/verif/target/engine/release/
unshare -Urm bash -c "mount --bind $SW/repo /repo; mount --bind $SW/verif /verif; cd /verif; . tools/env.sh; bc $3 $2 | grep -v ^-rw; export BC=/verif/target/t1/$2/deps/heng.bc; SYMEX_DUMPSLOW=1 T=${T:-60} sx ${4:-all}" 2>&1
