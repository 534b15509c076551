#!/bin/bash
# (re)creates scratch copies /tmp/plant/{repo,verif} of the committed trees, with their own build folders
set -e
mkdir -p /tmp/plant
if [ ! -d /tmp/plant/repo ]; then git clone -q /repo /tmp/plant/repo; fi
git -C /tmp/plant/repo fetch -q origin && git -C /tmp/plant/repo checkout -q -f "$(git -C /repo rev-parse HEAD)" && git -C /tmp/plant/repo clean -qfd -e target
mkdir -p /tmp/plant/verif
rsync -a --delete --exclude .git --exclude .build --exclude evidence --exclude seeded /verif/ /tmp/plant/verif/ 2>/dev/null || { cd /verif && tar cf - --exclude=.git --exclude=.build --exclude=evidence --exclude=seeded . | tar xf - -C /tmp/plant/verif; }
mkdir -p /tmp/plant/verif/evidence
cd /tmp/plant/verif
grep -rlE '/verif|/repo' --include=*.py --include=*.toml --include=*.sh --include=*.rs . | xargs sed -i 's#/repo#/tmp/plant/repo#g; s#/verif\b#/tmp/plant/verif#g'
mkdir -p /tmp/plant/vp
for f in env.sh build.sh test.sh pytests.py results.py; do sed 's#/opt/vp/#/tmp/plant/vp/#g; s#/repo#/tmp/plant/repo#g' /opt/vp/$f > /tmp/plant/vp/$f 2>/dev/null || true; done
