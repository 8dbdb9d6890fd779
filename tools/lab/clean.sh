cd /tmp/lab/verif
for s in $SEEDS; do for p in $PROPS; do
OAK_REPO=/tmp/lab/repo VERIF_SEED=$s nice -n 10 python3 check.py $p > /tmp/lab/clean-$p-$s.log 2>&1; echo "$p seed=$s rc=$? $(grep -E 'VIOLATION|KNOWN' /tmp/lab/clean-$p-$s.log | head -2)"
done; done
