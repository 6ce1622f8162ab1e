#!/bin/bash
# sync.sh  brings the harness in the scratch copies up to date
for p in /tmp/vcopy:/tmp/seedrepo /tmp/mutv:/tmp/mutrepo; do
  d=${p%:*} r=${p#*:}
  [ -d $d ] || continue
  cp -r /verif/harness/. $d/harness/ && cp /verif/known-findings.txt $d/
  sed -i "s#\"/repo\"#\"$r\"#" $d/harness/cmd/vrun/main.go
  sed -i "s#=> /repo#=> $r#" $d/harness/go.mod
done
