. /opt/vp/env.sh
GO_BUILD=/opt/veriftools/go1.26.10/bin/go
