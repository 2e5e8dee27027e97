import os, subprocess, json, shutil, sys
SEED='/verif/seeded'
DEMO='''#!/bin/bash
# compiles demo.cpp against the library sources in the current directory and runs it
set -e
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
R=$PWD
F="-include cstddef -DEIGEN_MAX_CPP_VER=03 -std=c++14 -w -O0 %(flags)s -I$H -I$R/include -I$R/src -I$R/urdf_parser/include -I$R/urdf_parser/tinyxml -I/usr/include/eigen3"
n=0
for s in "$H/demo.cpp" "$R"/src/kinematics.cpp "$R"/src/tinyfk.cpp "$R"/urdf_parser/src/*.cpp "$R"/urdf_parser/tinyxml/*.cpp; do
  n=$((n+1)); g++ $F -c "$s" -o "$D/$n.o" &
done
wait
g++ $F "$D"/*.o -o "$D/demo"
timeout 60 "$D/demo"
'''
COMMON=r'''#include "tinyfk.hpp"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <limits>
#include <Eigen/Dense>
#include <cmath>
using namespace tinyfk;
static void need(bool b, const char *what) { if (!b) { printf("FAILED: %s\n", what); exit(1); } }
static bool eq(double a, double b, double t = 1e-6) { return std::abs(a - b) <= t; }
static std::string L(const std::string &n, const std::string &in = "") { return "<link name=\"" + n + "\">" + in + "</link>"; }
static std::string IN(double m, const std::string &o = "") { return "<inertial>" + o + "<mass value=\"" + std::to_string(m) + "\"/><inertia ixx=\"0.1\" ixy=\"0.01\" ixz=\"0.02\" iyy=\"0.2\" iyz=\"0.03\" izz=\"0.25\"/></inertial>"; }
static std::string J(const std::string &n, const std::string &type, const std::string &p, const std::string &c, const std::string &axis = "0 0 1", const std::string &xyz = "0.1 0.2 0.3", const std::string &rpy = "0.1 0.2 0.3", const std::string &lim = "<limit lower=\"-1\" upper=\"1\" effort=\"2\" velocity=\"3\"/>") {
  return "<joint name=\"" + n + "\" type=\"" + type + "\"><parent link=\"" + p + "\"/><child link=\"" + c + "\"/><axis xyz=\"" + axis + "\"/><origin xyz=\"" + xyz + "\" rpy=\"" + rpy + "\"/>" + lim + "</joint>";
}
static std::string robot(const std::string &s) { return "<robot name=\"r\">" + s + "</robot>"; }
// a small arm: base -j1(revolute z)- a -j2(continuous y)- b -j3(prismatic x)- c
static std::string arm(const std::string &i0 = "", const std::string &i1 = "", const std::string &i2 = "", const std::string &i3 = "") {
  return robot(L("base", i0) + L("a", i1) + L("b", i2) + L("c", i3) + J("j1", "revolute", "base", "a") + J("j2", "continuous", "a", "b", "0 1 0", "0.3 0 0.1", "0 0.2 0.1") + J("j3", "prismatic", "b", "c", "1 0 0", "0 0.2 0.1", "0.1 0 0"));
}
'''
def mk(id, prop, edits, demo, needs, breaks, flags='', wrapper=False):
    d=os.path.join(SEED,id)
    os.makedirs(d,exist_ok=True)
    subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
    for f,a,b in edits:
        p='/repo/'+f
        s=open(p).read()
        assert s.count(a)==1,(id,f,s.count(a))
        open(p,'w').write(s.replace(a,b))
    diff=subprocess.check_output(['git','-C','/repo','diff'])
    open(d+'/patch.diff','wb').write(diff)
    open(d+'/demo.sh','w').write(DEMO%dict(flags=flags)); os.chmod(d+'/demo.sh',0o755)
    inc='#include "src/wrapper.cpp"\n' if False else ''
    open(d+'/demo.cpp','w').write(COMMON.replace('#include "tinyfk.hpp"\n','#include "wrapper.cpp"\n') .replace('using namespace tinyfk;\n','') + demo if wrapper else COMMON+demo)
    if wrapper:
        shutil.rmtree(d+'/pybind11',ignore_errors=True)
        shutil.copytree('/verif/stub/pybind11',d+'/pybind11')
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    ok=True
    def run(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
    if '--nobuild' not in sys.argv:
        r=run('bash /opt/vp/test.sh /tmp/seeds/out.json',cwd='/repo')
        base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        got=set(json.load(open('/tmp/seeds/out.json'))['passed'])
        if not base<=got: print(id,'TESTS FAIL',base-got); ok=False
    r=run(d+'/demo.sh',cwd='/repo')
    if r.returncode==0: print(id,'demo does not fail with patch'); ok=False
    else: print(id,'with patch:',r.stdout.decode()[-150:].strip())
    subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
    r=run(d+'/demo.sh',cwd='/repo')
    if r.returncode!=0: print(id,'demo fails on the unchanged tree',r.stdout.decode()[-600:]); ok=False
    print(id,'OK' if ok else 'NOT OK',flush=True)
