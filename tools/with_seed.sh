#!/bin/bash
# with_seed.sh ID command...: runs a command with a planted bug applied to /repo, then undoes it
S=$1; shift; git -C /repo apply /verif/seeded/$S/patch.diff || exit 9
"$@"; git -C /repo checkout -- .
