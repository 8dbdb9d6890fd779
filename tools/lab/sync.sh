#!/bin/bash
# sync.sh: the verif copy follows /verif, against /tmp/lab/repo
mkdir -p /tmp/lab/verif
rsync -a --delete --exclude target --exclude .git --exclude evidence --exclude seeded /verif/ /tmp/lab/verif/ 2>/dev/null || { cd /verif && tar cf - --exclude=./target --exclude=./.git --exclude=./evidence --exclude=./seeded . | tar xf - -C /tmp/lab/verif; }
sed -i 's|"/repo|"/tmp/lab/repo|' /tmp/lab/verif/sim/Cargo.toml
