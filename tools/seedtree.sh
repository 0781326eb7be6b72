#!/bin/bash
# seedtree.sh ID DIR : a copy of /repo's HEAD with seed ID applied
mkdir -p $2 && git -C /repo archive HEAD | tar -x -C $2 && cd $2 && cp /repo/Cargo.lock . && git init -q . && git apply /verif/seeded/$1/patch.diff
