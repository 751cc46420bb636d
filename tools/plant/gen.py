import os,subprocess,sys,json,shutil
OUT='/verif/seeded'
SH='''#!/bin/bash
# runs in the repository, after its build
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
clang++-18 -std=c++17 -O1 -g -fopenmp -Iinclude -Idep %s "$D/demo.cpp" lib/common.a %s -o "$W/demo" -w || exit 2
cd "$W" && OMP_NUM_THREADS=%d timeout 120 ./demo
'''
HEAD='''#include <cstdio>
#include <cstring>
#include <vector>
#include <string>
#include <set>
#include <omp.h>
#include "typedefs.h"
#include "utils.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/cswr.h"
#include "matrix/crcsr.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
struct E { long r, c; double v; };
template <class C> static C coo(long rows, long cols, std::vector<E> const &e) {
  C a; decltype(a.nnz) nn = e.size(); allocate(&a, nn); a.rows = rows; a.columns = cols; a.nnz = e.size();
  for (size_t i = 0; i < e.size(); i++) { a.set_row_index(i, e[i].r); a.set_column_index(i, e[i].c); a.set_value(i, e[i].v); }
  return a;
}
template <class T> static std::vector<T> product(long rows, std::vector<E> const &e, std::vector<T> const &x) {
  std::vector<T> y(rows, T(0)); for (auto &q : e) y[q.r] += (T)q.v * x[q.c]; return y;
}
template <class I> static I *offs(std::vector<long> const &v) { I *p = new I[v.size()]; for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; return p; }
'''
def seed(id, prop, needs, breaks, edits, demo=None, flags='', link='', threads=4, sh=None):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    base=[]; w='/tmp/sd/w'; shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call('git -C /repo archive HEAD | (mkdir -p %s; tar x -C %s); cd %s; git init -q; git add -A; git -c user.name=a -c user.email=a commit -qm x'%(w,w,w),shell=True)
    for f,a,b in edits:
        s=open(w+'/'+f,newline='').read(); assert s.count(a)>=1,(id,f,a,s.count(a)); s=s.replace(a,b,1); open(w+'/'+f,'w',newline='').write(s)
        base+=subprocess.run(['git','-C','/repo','show','5c4e8be:'+f],capture_output=True,text=True).stdout.split('\n')
    d=subprocess.check_output(['git','-C',w,'diff']).decode()
    for l in d.split('\n'):
        if l.startswith('-') and not l.startswith('---') and l[1:] not in base: print('  note: removed line not original:',id,l)
    o=OUT+'/'+id; os.makedirs(o,exist_ok=True)
    open(o+'/patch.diff','w',newline='').write(d)
    if demo is not None: open(o+'/demo.cpp','w').write(HEAD+demo)
    open(o+'/demo.sh','w').write(sh or SH%(flags,link,threads)); os.chmod(o+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(o+'/meta.json','w'),indent=1)
exec(open('/tmp/sd/list.py').read())
