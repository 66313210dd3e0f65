. /opt/vp/env.sh; export CGO_ENABLED=0 GOFLAGS=
cd /verif/hv && go vet . && go build -o /tmp/hvx . || exit 1
for c in "$@"; do HV_STRICT=1 HV_VERIF=/tmp/hvv timeout 600 /tmp/hvx $c; done
