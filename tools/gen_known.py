import subprocess
L=subprocess.run(["git","-C","/repo","log","--format=%h %s"],text=True,stdout=subprocess.PIPE).stdout.splitlines()
def h(s): 
    for l in L:
        if s in l: return l.split()[0]
    raise SystemExit("no commit: "+s)
F=[("G05","set the nonblocking entry points of the crystal-router","igs on a crystal-router handle called a null function pointer and crashed"),
("G05","comm_iallreduce always sets","nonblocking all-reduce of bpr or of zero elements waited on an unset request / left the result in the wrong buffer"),
("G07","free the request of an all-reduce","the request array of an all-reduce handle was never freed (memory grew with each set-up/free cycle)"),
("G08","gs_op_fields uses the size","strided-field gather-scatter of 64-bit integers used the size of double's neighbour type and read wrong elements"),
("G07","release the communicator made by the Fortran gs_unique","every call of the Fortran gs_unique left a duplicated communicator behind"),
("G08","nonblocking operations without a buffer","two outstanding nonblocking operations without caller buffer shared one static buffer and corrupted each other"),
("G08","igs_many keeps its own copy","the Fortran many-array nonblocking form kept a pointer to a dead stack array"),
("M04","tuple transfer stops at the capacity","more tuples than capacity arriving overflowed the caller's arrays"),
("M03","transfer records that consist of","records that consist only of their destination field divided by zero"),
("G06","unique set-up keeps the primary","unique set-up with flagged and unflagged local duplicates of one id gave wrong results"),
("F05","releases a bound that the Newton step began on","points outside an element were given a corner of it although the distance still decreased along an edge"),
("F05","keeps the bounds of a point whose last step is rejected","a point far outside the mesh was reported as inside the element (code 0, dist2 89)"),
("F03","findpts_eval evaluates at the points it is given","findpts_eval with other points than the first evaluation after a search returned values of the old points and wrote out of bounds"),
("F06","findpts_local releases","every findpts_local call left four small blocks behind"),
("F06","Fortran findpts_setup leaks","the Fortran finder set-up left two blocks behind (2-D) or passed uninitialised pointers on (3-D)"),
("C01","comm_split without MPI left","comm_split in a build without MPI left id and np of the new communicator unset"),
("C01","comm_iallreduce without MPI left","comm_iallreduce in a build without MPI did not write its output buffer"),
("C01","crystal router does not call MPI","the crystal router called MPI_Abort in a build without MPI: no program using it could be linked"),
("C02","Fortran findpts set-up passes","Fortran findpts set-up passed arrays of uint as arrays of unsigned: wrong element sizes and a crash when uint is 64 bits wide"),
("C02","findpts session numbers have","findpts passed 32-bit session numbers by pointer as uint: read past their end when uint is 64 bits wide"),
]
K=[("G02","transposed-all-flagged","gs with transpose=1 on a process that has several members of a group, all of them flagged: the first of them is overwritten by the combination of that process's own members instead of keeping its value"),
("G06","transposed-all-flagged","handle set up with the unique option: same deviation as G02 on processes whose members of a group are repeated locally and all flagged by the unique step")]
o=["# known findings (genuine defects recorded rather than repaired) and repaired ones; read by vf/core.py, never written by a check"]
o+=["known: property=%s name=%s %s"%k for k in K]+["fixed: property=%s %s %s"%(p,h(s),t) for p,s,t in F]
open("/verif/known_findings.txt","w").write("\n".join(o)+"\n")
