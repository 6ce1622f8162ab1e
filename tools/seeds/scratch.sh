#!/bin/bash
# scratch.sh  (re)makes the scratch copies in which gen.py works:
# /tmp/seedrepo (of /repo), /tmp/vcopy (of /verif's harness, pointing there), /tmp/svp (of /opt/vp)
set -e
rm -rf /tmp/seedrepo /tmp/vcopy /tmp/svp
cp -a /repo /tmp/seedrepo
mkdir /tmp/vcopy /tmp/svp
cp -a /verif/harness /verif/run.sh /verif/known-findings.txt /verif/tools /tmp/vcopy/
sed -i 's#"/repo"#"/tmp/seedrepo"#' /tmp/vcopy/harness/cmd/vrun/main.go
sed -i 's#=> /repo#=> /tmp/seedrepo#' /tmp/vcopy/harness/go.mod
cp /opt/vp/*.sh /opt/vp/*.py /opt/vp/BASELINE.json /tmp/svp/
sed -i 's#/opt/vp#/tmp/svp#g; s#/repo#/tmp/seedrepo#g' /tmp/svp/*.sh /tmp/svp/*.py
