import os,subprocess,sys,json,shutil
SB='/tmp/sb'
DEMO='''#!/bin/bash
# builds demo.cpp against /repo's sources and runs it
set -e
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cd "$W"
L=/usr/lib/x86_64-linux-gnu
export OPENBLAS_NUM_THREADS=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_plm=isolated OMPI_MCA_oob_tcp_if_include=lo
R=${REPO:-/repo}
g++ -std=c++17 -O1 -DNDEBUG -DOMPI_SKIP_MPICXX -w -I$R/src -I$R/include -isystem /usr/include/trilinos -isystem $L/openmpi/include \\
  -isystem $L/openmpi/include/openmpi -isystem /usr/include/x86_64-linux-gnu/openblas-pthread "$H/demo.cpp" %s -o demo \\
  -Wl,-rpath,$L/openmpi/lib:$L/openblas-pthread $L/libtrilinos_kokkoscontainers.so.13.2 $L/libtrilinos_kokkoscore.so.13.2 \\
  $L/openmpi/lib/libmpi.so $L/openblas-pthread/libopenblas.so -llapacke -ldl
timeout -k 5 120 %s ./demo
'''
PRE='''#include <mpi.h>
#include <Kokkos_Core.hpp>
#include <cstdio>
#include <cmath>
#include <iostream>
%s
using namespace nlcglib;
static int run();
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv);
  Kokkos::initialize();
  int r = 1;
  try { r = run(); } catch (std::exception& e) { std::printf("exception: %%s\\n", e.what()); }
  Kokkos::finalize();
  MPI_Finalize();
  return r;
}
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def seed(id,prop,edits,inc,demo,needs,breaks,np=0,extra=''):
    d='/verif/seeded/'+id
    if '--only' in sys.argv and id not in sys.argv: return
    shutil.rmtree(SB,ignore_errors=True)
    sh('git clone -q /repo %s'%SB)
    for f,o,n in edits:
        p=SB+'/'+f; s=open(p).read()
        assert s.count(o)==1,(id,f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(sh('git -C %s diff'%SB).stdout)
    mp='mpirun -np %d'%np if np else ''
    open(d+'/demo.sh','w').write(DEMO%(extra,mp)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(PRE%inc+demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    a=sh('bash %s/demo.sh'%d,env=dict(os.environ,REPO='/repo'),cwd='/repo')
    b=sh('bash %s/demo.sh'%d,env=dict(os.environ,REPO=SB),cwd='/repo')
    print(id,prop,'orig',a.returncode,'patched',b.returncode,'OK' if a.returncode==0 and b.returncode not in(0,) else 'BAD')
    if a.returncode or not b.returncode or '-v' in sys.argv or 'rror:' in b.stderr: print(a.stdout[-300:],a.stderr[-400:],'---',b.stdout[-300:],b.stderr[-400:])
