PROPERTY="C28"
NEEDS="a slanted link and an obstruction close to one of its ends"
BREAKS="only two corners of the footprint of the Fresnel zone bound the search for obstructions, so obstructions close to the ends of slanted links are missed"
T="terragraph_planner/los/ellipsoidal_los_validator.py"
EDITS=[(T,"""        min_x, max_x = min(a[0], b[0], c[0], d[0]), max(a[0], b[0], c[0], d[0])
        min_y, max_y = min(a[1], b[1], c[1], d[1]), max(a[1], b[1], c[1], d[1])
""","""        # a and d are opposite corners
        min_x, max_x = min(a[0], d[0]), max(a[0], d[0])
        min_y, max_y = min(a[1], d[1]), max(a[1], d[1])
""")]
DEMO='''
import numpy as np
from osgeo import osr
from terragraph_planner.common.configuration.enums import *
from terragraph_planner.common.structs import UTMBoundingBox
from terragraph_planner.common.topology_models.site import LOSSite
from terragraph_planner.los.elevation import Elevation
from terragraph_planner.los.ellipsoidal_los_validator import EllipsoidalLOSValidator
sr=osr.SpatialReference(); sr.ImportFromEPSG(32610)
def los(x,y):
    return LOSSite(utm_x=x,utm_y=y,altitude=20.0,location_type=LocationType.STREET_LEVEL.value,building_id=None)
def conf(x,y,p,q):
    m=np.zeros((201,201),dtype=np.float32); m[200-y,x]=100.0
    e=Elevation(m,UTMBoundingBox(max_utm_x=200,max_utm_y=200,min_utm_x=0,min_utm_y=0),1.0,1.0,0.0,200.0,sr,None)
    v=EllipsoidalLOSValidator(e,1000,1,90,600.0,[],0.0)
    return v.compute_confidence(los(*p),los(*q))
# mirrored pictures must give the same answer
bad=[]
for dx in (0,1):
    for x in range(1,8):
        for y in range(1,8):
            l=conf(x,y,(0,0),(200,200)); r=conf(y,x,(0,0),(200,200)); k=conf(x,200-y,(0,200),(200,0))
            if abs(l-r)>1e-3 or abs(l-k)>1e-3: bad.append((x,y,l,r,k))
    break
if bad:
    raise SystemExit("mirrored obstructions are judged differently: %s" % bad[:3])
'''
