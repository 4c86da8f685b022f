#!/bin/bash
# cells.sh [RUNS]: how often, in RUNS runs of C08, each operation met operands of
# each kind (sim/src/cells.rs); lists the kinds some operation hardly ever met.
# A development aid for the generators; no check uses it.
here=$(cd "$(dirname "$0")/.." && pwd)
n=${1:-40000}
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR=$here/target/cells RUSTC_BOOTSTRAP=ethsim
cd "$here/sim" && cargo build --release --offline --features cells >/dev/null 2>&1 || { echo "build failed"; exit 2; }
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
for i in 0 1 2 3 4 5 6 7; do
    "$CARGO_TARGET_DIR/release/ethsim" cells C08 "${VERIF_SEED:-1}" $((i * n / 8)) $(((i + 1) * n / 8)) >"$d/$i" &
done
wait
python3 - "$d" <<'P'
import collections, glob, sys
t = collections.Counter()
for f in glob.glob(sys.argv[1] + '/*'):
    for l in open(f):
        o, x, n = l.rstrip('\n').split('\t')
        if not o.startswith(('From', 'Cast', 'New', 'Prim')):
            t[o, x] += int(n)
one, pair = collections.defaultdict(list), collections.defaultdict(list)
for (o, x), n in t.items():
    (pair if ' x ' in x or ' n ' in x else one)[x].append((n, o))
for x, v in sorted(one.items(), key=lambda z: min(z[1])[0]):
    v.sort()
    if v[0][0] < 8:
        print(f'{x:16} least {v[0][0]} ({v[0][1]}) median {v[len(v) // 2][0]}')
med = collections.Counter()
for x, v in pair.items():
    m = sorted(n for n, _ in v)[len(v) // 2]
    med['0' if m == 0 else '1' if m < 2 else '2-5' if m < 6 else '6-20' if m < 21 else '>20'] += 1
print('pairs of kinds, by how often the median operation met them:', dict(med))
P
