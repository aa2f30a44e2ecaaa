#!/bin/bash
# lane.sh NAME : scratch copy of the committed /repo and /verif in /tmp/lanes/NAME (development aid)
d=/tmp/lanes/$1
mkdir -p "$d"; rm -rf "$d/repo" "$d/verif"
mkdir -p "$d/repo" "$d/verif"
(cd /repo && git archive HEAD) | tar -x -C "$d/repo"
(cd /verif && git archive HEAD) | tar -x -C "$d/verif"
cp /repo/Cargo.lock "$d/repo/" 2>/dev/null
sed -i "s#path = \"/repo\"#path = \"$d/repo\"#" "$d/verif/mon/Cargo.toml" "$d/verif/nostd/Cargo.toml"
(cd "$d/verif" && CARGO_TARGET_DIR=$d/verif/target cargo build --release --offline --locked --bins --manifest-path mon/Cargo.toml 2>&1 | tail -1)
