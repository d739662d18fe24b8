#!/bin/bash
# mkseed.sh <id> : (run with the change applied in /tmp/seed/repo worktree) stores the diff as seeded/<id>/patch.diff
set -e
id=$1; mkdir -p /verif/seeded/$id
git -C /tmp/seed/repo diff > /verif/seeded/$id/patch.diff
git -C /tmp/seed/repo checkout -q -- .
