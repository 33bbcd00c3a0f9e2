#!/bin/bash
# build.sh OUT : compiles the simulator and /repo's current server sources into OUT. Nothing is written in /repo.
set -e
V=$(cd "$(dirname "$0")" && pwd); R=${REPO:-/repo}; O=$1
export LC_ALL=C PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
mkdir -p "$O/gen" "$O/o"
cat > "$O/gen/config.h" <<'C'
#pragma once
#define ADMIN_PWD "sim_adm_pw"
#define MAX_USERS 20
#define HAVE_FCNTL_H 1
#define HAVE_UNISTD_H 1
#define HAVE_STDARG_H 1
#define HAVE_TIME_H 1
#define HAVE_SYS_TIME_H 1
#define HAVE_SYS_SELECT_H 1
#define HAVE_GETHOSTNAME 1
#define HAVE_GETTIMEOFDAY 1
#define HAVE_SELECT 1
#define HAVE_SOCKET 1
#define HAVE_STRDUP 1
#define HAVE_STRERROR 1
#define HAVE_SNPRINTF 1
#define HAVE_SOCKLEN_T 1
#define HAVE_SSL 1
#define HAVE_SSL_CTX_SET_MIN_PROTO_VERSION 1
#include "icb_config.h"
#undef MAX_GROUPS
#define MAX_GROUPS 8
C
WRAPS=$(grep -o '__wrap_[A-Za-z0-9_]*' "$V/sim/kernel.cc" | sort -u | sed 's/__wrap_//')
WL=""; for w in $WRAPS; do WL="$WL -Wl,--wrap=$w"; done
CF="-std=gnu99 -g -O1 -fPIC -w -fno-omit-frame-pointer -fsanitize=address,bounds,shift,integer-divide-by-zero,signed-integer-overflow,null,return,unreachable,vla-bound,bool,enum -fno-sanitize-recover=all -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -ftrivial-auto-var-init=pattern -fno-builtin-printf -fno-builtin-fprintf -I$O/gen -I$R -I$R/server -I$R/pktserv"
if [ -n "$COV" ]; then CF="$CF -fsanitize-coverage=trace-pc"; fi   # measuring only (tools/cov.sh)
# the file lists are the ones CMakeLists.txt gives
SRV=$(sed -n '/^add_executable(icbd/,/)/p' "$R/CMakeLists.txt" | grep -o 'server/[a-zA-Z0-9_]*\.c')
PKT=$(sed -n '/^add_library(pktserv/,/)/p' "$R/CMakeLists.txt" | grep -o 'pktserv/[a-zA-Z0-9_]*\.c')
pids=()
run() { "$@" & pids+=($!); }
objs=""
for f in $SRV; do o="$O/o/s_$(basename "$f").o"; objs="$objs $o"; d=""; [ "$f" = server/main.c ] && d="-Dmain=icbd_main"; run gcc $CF $d -c "$R/$f" -o "$o"; done
for f in $PKT; do o="$O/o/p_$(basename "$f").o"; objs="$objs $o"; run gcc $CF -DPKTSERV_INTERNAL -c "$R/$f" -o "$o"; done
xo=""
for f in kernel world model1 model2 model3 gen main; do
  o="$O/o/x_$f.o"; xo="$xo $o"
  if [ ! -e "$o" ] || [ -n "$(find "$V/sim" "$R/version.h" -newer "$o" -print -quit)" ]; then run g++ -std=c++17 -O2 -g1 -w -I"$V/sim" -I"$R" -c "$V/sim/$f.cc" -o "$o"; fi
done
for p in "${pids[@]}"; do wait "$p" || { echo "build failed" >&2; exit 1; }; done
gcc -shared -fsanitize=address,bounds,shift,integer-divide-by-zero,signed-integer-overflow,null,return,unreachable,vla-bound,bool,enum -Wl,-Bsymbolic $WL -o "$O/icbd.0.so" $objs -lssl -lcrypto
for i in 1 2 3 4 5; do cp "$O/icbd.0.so" "$O/icbd.$i.so"; done
g++ -rdynamic -fsanitize=address,bounds,shift,integer-divide-by-zero,signed-integer-overflow,null,return,unreachable,vla-bound,bool,enum -o "$O/sim" $xo -lssl -lcrypto -ldl
cp "$V/sim/sim.pem" "$O/sim.pem"
