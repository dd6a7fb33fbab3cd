"""Small synthetic surfaces used by the line-of-sight checks."""
import numpy as np
from osgeo import osr

from terragraph_planner.common.data_io.constants import NO_DATA_VALUE
from terragraph_planner.common.structs import UTMBoundingBox
from terragraph_planner.los.elevation import Elevation

_SR = {}


def spatial_reference(epsg):
    if epsg not in _SR:
        sr = osr.SpatialReference()
        sr.ImportFromEPSG(epsg)
        sr.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        _SR[epsg] = sr
    return _SR[epsg].Clone()


def surface(matrix, left, top, res, epsg, dtype=np.float32, yres=None):
    """An Elevation whose cell (row r, col c) is centred at (left + c*res, top - r*yres)."""
    yres = yres or res
    m = np.array(matrix, dtype=dtype)
    h, w = m.shape
    box = UTMBoundingBox(
        max_utm_x=left + (w - 1) * res, max_utm_y=top,
        min_utm_x=left, min_utm_y=top - (h - 1) * yres,
    )
    return Elevation(m, box, res, yres, left, top, spatial_reference(epsg), None)


NODATA = NO_DATA_VALUE
