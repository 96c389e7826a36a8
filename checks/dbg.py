import sys,os
import glob
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","lib"))
from vp import *
h=sys.argv[1]; cases=sys.argv[2:] or None
over={}
if os.environ.get("VP_OVER"):
    over=dict((k,int(v)) for k,v in (x.split("=") for x in os.environ["VP_OVER"].split(",")))
for f in glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","evidence","replay","C00.*")): os.remove(f)
print(check("C00",[Unit(h,cases=cases,over=over,budget=float(os.environ.get("VP_BUDGET","120")),args=os.environ.get("VP_ARGS","").split(),extra=os.environ.get("VP_EXTRA","").split())],{}))
