#!/usr/bin/env python3
# rep.py FILE <<< "old\n=====\nnew"  : exact single replacement, tabs preserved
import sys
f=sys.argv[1]; s=open(f).read(); o,n=sys.stdin.read().split("\n=====\n",1)
n=n.rstrip("\n") if not n.endswith("\n\n") else n[:-1]
if s.count(o)!=1: sys.exit("count %d in %s"%(s.count(o),f))
open(f,"w").write(s.replace(o,n))
