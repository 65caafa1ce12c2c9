#!/bin/bash
# Builds the simulator against /repo's working tree. usage: build.sh OUTDIR [extra cflags]
# Everything goes to OUTDIR; /repo is only read.
set -e
REPO=${REPO:-/repo}; HERE=$(cd "$(dirname "$0")/.." && pwd); OUT=$1; shift; EXTRA="$*"
mkdir -p "$OUT/lib" "$OUT/h"
OUT=$(cd "$OUT" && pwd)
log="$OUT/build.log"; : >"$log"
# which sources make up the library (the build's own list)
srcs=$(python3 - "$REPO" <<'PY'
import re,sys,os
t=open(os.path.join(sys.argv[1],"Makefile.am")).read().replace("\\\n"," ")
seen=[]
for m in re.finditer(r"^\s*libmpi_serial_a_SOURCES\s*\+?=(.*)$",t,re.M):
    for w in m.group(1).split():
        if w.endswith((".c",".F90",".f90",".cc")) and w not in seen: seen.append(w)
print(" ".join(seen))
PY
)
[ -n "$srcs" ] || { echo "no source list found in $REPO/Makefile.am" >&2; exit 2; }
inc="-I$OUT/inc -I$REPO"; mkdir -p "$OUT/inc"
cat >"$OUT/syms" <<'S'
malloc sim_malloc
calloc sim_calloc
realloc sim_realloc
reallocarray sim_reallocarray
free sim_free
cfree sim_cfree
strdup sim_strdup
__strdup sim___strdup
strndup sim_strndup
posix_memalign sim_posix_memalign
aligned_alloc sim_aligned_alloc
abort sim_abort
exit sim_exit
_exit sim__exit
_Exit sim__Exit
quick_exit sim_quick_exit
raise sim_raise
kill sim_kill
__assert_fail sim_assert_fail
gettimeofday sim_gettimeofday
clock_gettime sim_clock_gettime
timespec_get sim_timespec_get
time sim_time
clock sim_clock
gethostname sim_gethostname
uname sim_uname
sleep sim_sleep
usleep sim_usleep
nanosleep sim_nanosleep
sched_yield sim_sched_yield
poll sim_poll
select sim_select
pause sim_pause
memcpy sim_memcpy
__memcpy_chk sim_memcpy_chk
memmove sim_memmove
memset sim_memset
bcopy sim_bcopy
bzero sim_bzero
memcmp sim_memcmp
strncpy sim_strncpy
strcpy sim_strcpy
stpcpy sim_stpcpy
strcat sim_strcat
strncat sim_strncat
strlen sim_strlen
sprintf sim_sprintf
snprintf sim_snprintf
vsprintf sim_vsprintf
vsnprintf sim_vsnprintf
asprintf sim_asprintf
vasprintf sim_vasprintf
__stack_chk_fail sim_stack_chk_fail
pthread_mutex_lock sim_mutex_lock
pthread_mutex_trylock sim_mutex_trylock
pthread_mutex_unlock sim_mutex_unlock
S
CF="-g -O1 -w -fPIC -U_FORTIFY_SOURCE -fstack-protector-all -fno-builtin -fdata-sections -fno-common -fsanitize=thread -DFORTRAN_UNDERSCORE_ $inc $EXTRA"
pids=(); objs=()
# the constants of mpif.h as a Fortran component sees them, and the same names from mpi.h
python3 - "$REPO" "$OUT/h" <<'PY'
import re,sys
t=open(sys.argv[1]+"/mpif.h").read()
t="\n".join(l for l in t.split("\n") if not re.match(r"\s*!|^[cC*]",l))
names=[]
for m in re.finditer(r"parameter\s*\(([^!\n]*)\)\s*(?:!.*)?$",t,re.I|re.M):
    for n in re.findall(r"(\w+)\s*=",m.group(1)):
        if n.upper() not in names: names.append(n.upper())
bits={"MPI_INTEGER":"0","MPI_LOGICAL":".true.","MPI_REAL":"0.0","MPI_DOUBLE_PRECISION":"0.0d0","MPI_COMPLEX":"(0.0,0.0)","MPI_DOUBLE_COMPLEX":"(0.0d0,0.0d0)","MPI_CHARACTER":"'x'"}
f="      subroutine sim_fc_get(v,s)\n      implicit none\n      include 'mpif.h'\n      integer v(%d),s(%d)\n      s=0\n"%(len(names),len(names))
for i,n in enumerate(names):
    f+="      v(%d)=int(%s)\n"%(i+1,n)
    if n in bits: f+="      s(%d)=int(storage_size(%s)/8)\n"%(i+1,bits[n])
    m=re.fullmatch(r"MPI_(INTEGER|REAL|COMPLEX)(\d+)",n)
    if m: f+="      s(%d)=%s\n"%(i+1,m.group(2))
    if n=="MPI_2INTEGER": f+="      s(%d)=8\n"%(i+1)
    if n=="MPI_2REAL": f+="      s(%d)=int(storage_size(0.0)/4)\n"%(i+1)
    if n=="MPI_2DOUBLE_PRECISION": f+="      s(%d)=int(storage_size(0.0d0)/4)\n"%(i+1)
f+="      end\n"
fw="      subroutine sim_fwtime(r)\n      implicit none\n      include 'mpif.h'\n      real(8) r\n      r=MPI_WTIME()\n      end\n"   # as a Fortran caller receives it
open(sys.argv[2]+"/fconst.f90","w").write(f+fw)
# the same through the module
g=f.replace("subroutine sim_fc_get(","subroutine sim_fc_mod(",1).replace("      implicit none\n      include 'mpif.h'\n","      use mpi\n      implicit none\n",1)
g+="      subroutine sim_fc_addr(k)\n      use mpi\n      implicit none\n      integer k\n      k=int(storage_size(int(0,MPI_ADDRESS_KIND))/8)\n      end\n"
open(sys.argv[2]+"/fcmod.f90","w").write(g)
c='#include "mpi.h"\nconst int sim_fc_n=%d;\nconst char*const sim_fc_name[]={%s};\n'%(len(names),",".join('"%s"'%n for n in names))
have="";val=""
for n in names:
    have+="\n#ifdef %s\n1,\n#else\n0,\n#endif"%n
    val+="\n#ifdef %s\n(long)(%s),\n#else\n0,\n#endif"%(n,n)
c+="const int sim_fc_have[]={%s\n};\nconst long sim_fc_c[]={%s\n};\n"%(have,val)
open(sys.argv[2]+"/fconst_c.c","w").write(c)
PY
(gfortran -ffree-form -fPIC -O0 -w $EXTRA -I"$REPO" -c "$OUT/h/fconst.f90" -o "$OUT/lib/sim_fconst.o" && gcc -fPIC -w -I"$REPO" -c "$OUT/h/fconst_c.c" -o "$OUT/lib/sim_fconst_c.o") >>"$log.fconst" 2>&1 & pids+=($!); objs+=("$OUT/lib/sim_fconst.o" "$OUT/lib/sim_fconst_c.o")
# every global of the library gets 64 forbidden bytes before and after it, listed in section simrz
RZ='function rz(){ n++; printf ".Lsimrz%d:\n\t.zero\t64\n\t.pushsection\tsimrz,\"aw\"\n\t.quad\t.Lsimrz%d\n\t.popsection\n",n,n }
{ print }
/^[ \t]*\.section[ \t]+\.(bss|data|rodata)\.[^,]*,"[a-zA-LN-RU-Z]*"/ && !/"[^"]*[MST][^"]*"/ { rz(); sec[++k]=$0 }
END{ for(i=1;i<=k;i++){ print sec[i]; rz() } print "\t.section\t.note.GNU-stack,\"\",@progbits" }'
one(){ # compile one library source
  s=$1; o=$2
  case $s in
   *.c)  gcc $CF -S "$REPO/$s" -o "$o.tmp.s" && awk "$RZ" "$o.tmp.s" >"$o.rz.s" && gcc -c "$o.rz.s" -o "$o.tmp.o" ;;
   *.cc) g++ $CF -S "$REPO/$s" -o "$o.tmp.s" && awk "$RZ" "$o.tmp.s" >"$o.rz.s" && gcc -c "$o.rz.s" -o "$o.tmp.o" ;;
   *)    (cd "$OUT/inc" && gfortran -g -O1 -w -fPIC -cpp -J"$OUT/inc" $inc $EXTRA -c "$REPO/$s" -o "$o.tmp.o") ;;
  esac && objcopy --redefine-syms="$OUT/syms" "$o.tmp.o" "$o" && rm -f "$o.tmp.o" "$o.tmp.s" "$o.rz.s"
}
for s in $srcs; do o="$OUT/lib/$(echo "$s"|tr / _).o"; objs+=("$o"); (one "$s" "$o") >>"$log.$(basename "$s")" 2>&1 & pids+=($!); done
HK=$( (cat "$HERE"/sim/* "$REPO/mpi.h" "$0";  echo "$EXTRA") | sha256sum | cut -c1-16); HD=${SIM_CACHE:-$HERE/.build}/h-$HK; mkdir -p "$(dirname "$HD")"; HT="$OUT/h"   # simulator objects are kept between builds
hobjs=()
for h in env model sim threads gen main; do
  if [ -f "$HD/ok" ]; then hobjs+=("$HD/$h.o"); continue; fi
  o="$HT/$h.o"; hobjs+=("$o"); (g++ -std=c++20 -O1 -g -w -fPIC -fno-strict-aliasing $EXTRA -I"$HERE/sim" -I"$REPO" -c "$HERE/sim/$h.cc" -o "$o") >>"$log.$h" 2>&1 & pids+=($!); done
bad=0; for p in "${pids[@]}"; do wait $p || bad=1; done
case " $srcs " in *" mpif.F90 "*) objs+=("$OUT/lib/sim_fcmod.o"); gfortran -ffree-form -fPIC -O0 -w $EXTRA -I"$OUT/inc" -c "$OUT/h/fcmod.f90" -o "$OUT/lib/sim_fcmod.o" >>"$log.fcmod" 2>&1 || bad=1;; esac
cat "$log".* >>"$log" 2>/dev/null || true; rm -f "$log".*
[ $bad = 0 ] || { cat "$log" >&2; exit 2; }
g++ -o "$OUT/sim" "${hobjs[@]}" "${objs[@]}" -lgfortran -lpthread >>"$log" 2>&1 || { cat "$log" >&2; exit 2; }
[ -f "$HD/ok" ] || { mkdir -p "$HD.$$" && cp "$HT"/*.o "$HD.$$"/ && touch "$HD.$$/ok" && mv -T "$HD.$$" "$HD" 2>/dev/null || rm -rf "$HD.$$"; }
