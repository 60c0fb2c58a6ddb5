python3 /tmp/reg.py; gofmt -w /verif/harness/zzharness; cd /verif; t=${T:-90}; for h in "$@"; do /tmp/eng run $h -t $t $O; done
