PROPERTY="C32"
NEEDS="a building whose surface elevation is exactly 0"
BREAKS="a candidate on a roof at elevation 0 has no altitude"
T="terragraph_planner/los/building_group.py"
EDITS=[(T,"""                    if surface_elevation is not None
                    else None,
                ),
                building_id=building_id,""","""                    if surface_elevation is not None and location.z
                    else None,
                ),
                building_id=building_id,""")]
DEMO='''
import numpy as np
from osgeo import osr
from shapely.geometry import Polygon
from terragraph_planner.common.structs import UTMBoundingBox
from terragraph_planner.los.elevation import Elevation
from terragraph_planner.los.building_group import BuildingGroup
sr=osr.SpatialReference(); sr.ImportFromEPSG(32610)
o=(500000.0,4000000.0)
e=Elevation(np.zeros((60,60),dtype=np.float32),UTMBoundingBox(max_utm_x=o[0]+60,max_utm_y=o[1]+60,min_utm_x=o[0],min_utm_y=o[1]),1.0,1.0,o[0],o[1]+60,sr,None)
b=BuildingGroup([],sr)
b.add_building(polygon=Polygon([(o[0]+x,o[1]+y) for x,y in ((10,10),(40,10),(40,40),(10,40))]))
got=[s.altitude for s in b.detect_site_candidates(e,3.0,None,True,True,True)]
if got!=[3.0]*len(got):
    raise SystemExit("altitudes: %s" % got)
'''
