#!/bin/bash
# dev.sh ID [lines]: build the checker and run one check, short output
cd /verif/checker && . ../env.sh && gofmt -w *.go
bash ../setup.sh 2>&1 | tail -5 || exit 1
[ "${PIPESTATUS[0]}" = 0 ] || exit 1
S=$(date +%s); VERIF_DIR=/tmp/v timeout 1500 ../bin/checker $1 >/tmp/dev.$1.out 2>/tmp/dev.$1.err
grep -v '^\s\|^goroutine\|^main\.\|^runtime\|^panic' /tmp/dev.$1.out | cut -c1-${W:-330} | head -${2:-25}; tail -${ERRL:-3} /tmp/dev.$1.err | cut -c1-300; tail -2 /tmp/dev.$1.out | cut -c1-200; echo "$(( $(date +%s)-S )) s"
