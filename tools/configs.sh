# The build options of mpi-serial a property is also searched under, and how the simulator is built with them.
configs_of(){ case $1 in C23|C13) echo default real8 real8double16 real16;; C18) echo default real8double16;; C22) echo default typecheck;; *) echo default;; esac; }
flags_of(){ case $1 in
 real8) echo "-DCONFIG_FORT_REAL=8 -DCONFIG_FORT_DOUBLE=8 -fdefault-real-8 -fdefault-double-8";;      # --enable-fort-real=8 with -r8
 real8double16) echo "-DCONFIG_FORT_REAL=8 -DCONFIG_FORT_DOUBLE=16 -fdefault-real-8";;               # --enable-fort-real=8 --enable-fort-double=16
 real16) echo "-DCONFIG_FORT_REAL=16 -DCONFIG_FORT_DOUBLE=16 -freal-4-real-16 -freal-8-real-16";;       # --enable-fort-real=16 --enable-fort-double=16
 typecheck) echo "-DTYPE_CHECKING";;                                                                # --enable-type-checking
 esac; }
