PROPERTY="C31"
NEEDS="a raster whose pixels are not square"
BREAKS="the points used to fill gaps are thinned with the step of the other axis, so most of the data is lost on one axis"
T="terragraph_planner/los/elevation.py"
EDITS=[(T,"""        y_step = math.ceil(MIN_RES_TO_OUTPUT_AS_LIST / self.y_resolution)
        x_step = math.ceil(MIN_RES_TO_OUTPUT_AS_LIST / self.x_resolution)
""","""        y_step, x_step = (
            math.ceil(MIN_RES_TO_OUTPUT_AS_LIST / resolution)
            for resolution in (self.x_resolution, self.y_resolution)
        )
""")]
DEMO='''
import numpy as np
from osgeo import osr
from terragraph_planner.common.structs import UTMBoundingBox
from terragraph_planner.los.elevation import Elevation
sr=osr.SpatialReference(); sr.ImportFromEPSG(32610)
m=np.arange(8*8,dtype=np.float32).reshape(8,8)
e=Elevation(m,UTMBoundingBox(max_utm_x=36,max_utm_y=8,min_utm_x=0,min_utm_y=0),0.25,10.0,0.0,80.0,sr,None)
xs={p[0] for p in e.get_data_as_list()}; ys={p[1] for p in e.get_data_as_list()}
if len(ys)!=8:
    raise SystemExit("rows kept: %d of 8" % len(ys))
'''
