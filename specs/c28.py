import math
from functools import partial
from typing import Callable, List, Optional, Tuple

from pyre_extensions import none_throws
from terragraph_planner.common.exceptions import LOSException, planner_assert
from terragraph_planner.common.structs import Point3D
from terragraph_planner.common.topology_models.site import LOSSite
from terragraph_planner.los.base_los_validator import BaseLOSValidator
from terragraph_planner.los.elevation import Elevation
from terragraph_planner.los.fresnel_zone import FresnelZone


def ellipsoidal(self, site1: LOSSite, site2: LOSSite):
    if not self._passes_simple_checks(site1, site2):
        return 0.0
    if self._surface_elevation is None:
        return 1.0
    zone = FresnelZone(site1, site2, self._frequency_mhz, self._los_confidence_threshold)
    radius = zone.fresnel_radius
    corners = self._get_four_corners_of_rectangle(site1.utm_x, site1.utm_y, site2.utm_x, site2.utm_y, radius)
    west = min(corners[0][0], corners[1][0], corners[2][0], corners[3][0])
    east = max(corners[0][0], corners[1][0], corners[2][0], corners[3][0])
    south = min(corners[0][1], corners[1][1], corners[2][1], corners[3][1])
    north = max(corners[0][1], corners[1][1], corners[2][1], corners[3][1])
    clear = radius
    for cell in none_throws(self._surface_elevation).get_all_obstructions(west, north, east, south, zone.check_point_within_outer_ellipse):
        if zone.check_point_obstruct_inner_fresnel_zone(cell):
            return 0.0
        clear = min(clear, zone.get_max_fresnel_radius(cell))
    return clear / radius


def corners(self, utm_x1: float, utm_y1: float, utm_x2: float, utm_y2: float, radius: float):
    dx = utm_x2 - utm_x1
    dy = utm_y2 - utm_y1
    if abs(dx) >= abs(dy):
        m = dy / dx
        oy = radius / math.sqrt(1 + m * m)
        ox = oy * m
    else:
        m = dx / dy
        ox = radius / math.sqrt(1 + m * m)
        oy = ox * m
    return (utm_x1 + ox, utm_y1 - oy), (utm_x1 - ox, utm_y1 + oy), (utm_x2 + ox, utm_y2 - oy), (utm_x2 - ox, utm_y2 + oy)


def by_radius(self, site1: LOSSite, site2: LOSSite):
    p, q, r, s = self._get_four_corners_of_rectangle(site1.utm_x, site1.utm_y, site2.utm_x, site2.utm_y, self._fresnel_radius)
    pq = (q[0] - p[0], q[1] - p[1])
    pr = (r[0] - p[0], r[1] - p[1])
    inside = self._filter_points_outside_of_rectangle(p, pq, pr, pq[0] ** 2 + pq[1] ** 2, pr[0] ** 2 + pr[1] ** 2)
    cells = none_throws(self._surface_elevation).get_all_obstructions(
        min(p[0], q[0], r[0], s[0]), max(p[1], q[1], r[1], s[1]), max(p[0], q[0], r[0], s[0]), min(p[1], q[1], r[1], s[1]), inside
    )
    cells.sort(key=lambda cell: cell.z, reverse=True)
    ax, ay, az = site1.utm_x, site1.utm_y, none_throws(site1.altitude)
    bx = site2.utm_x - site1.utm_x
    by = site2.utm_y - site1.utm_y
    bz = none_throws(site2.altitude) - none_throws(site1.altitude)
    flat = bx * bx + by * by
    clear = self._fresnel_radius
    for cell in cells:
        if self._los_confidence_threshold == 1.0 and cell.z > max(none_throws(site1.altitude), none_throws(site2.altitude)):
            return 0.0
        d = self._distance_between_grid_and_center_line(cell, ax, ay, az, bx, by, bz, flat, math.sqrt(flat), flat + bz * bz)
        if d is not None:
            if d < self._fresnel_radius * self._los_confidence_threshold:
                return 0.0
            clear = min(clear, d)
    return clear / self._fresnel_radius


def cell_distance(self, grid: Point3D, ax: float, ay: float, az: float, bx: float, by: float, bz: float, b_len_2d_sq: float, b_len_2d: float, b_len_3d_sq: float):
    x = grid[0] - ax
    y = grid[1] - ay
    z = grid[2] - az
    along = (x * bx + y * by) / b_len_2d_sq
    if z > along * bz:
        # the line passes beside or through the column
        if along < 0 or along > 1:
            return None
        return abs(y * bx - x * by) / b_len_2d
    t = (x * bx + y * by + z * bz) / b_len_3d_sq
    if t < 0 or t > 1:
        return None
    return math.sqrt((x - t * bx) ** 2 + (y - t * by) ** 2 + (z - t * bz) ** 2)


def zone_init(self, site1: LOSSite, site2: LOSSite, frequency_mhz: float, los_confidence_threshold: float):
    if not (los_confidence_threshold >= 0 and los_confidence_threshold <= 1):
        raise LOSException("")
    if site1.utm_x == site2.utm_x and site1.utm_y == site2.utm_y:
        raise LOSException("")
    self._site1 = site1
    self._site2 = site2
    self._los_confidence_threshold = los_confidence_threshold
    self._frequency_mhz = frequency_mhz
    self._get_equation_constants()
    self.check_point_within_outer_ellipse = partial(self._filter_points_outside_of_ellipse, self._outer_fresnel_radius_sq)
    self.check_point_within_inner_ellipse = partial(self._filter_points_outside_of_ellipse, self._inner_fresnel_radius_sq)


def constants(self):
    x1, y1, z1 = self._site1.utm_x, self._site1.utm_y, none_throws(self._site1.altitude)
    x2, y2, z2 = self._site2.utm_x, self._site2.utm_y, none_throws(self._site2.altitude)
    dx = x2 - x1
    dy = y2 - y1
    dz = z2 - z1
    flat = math.sqrt(dx * dx + dy * dy)
    length = math.sqrt(dx * dx + dy * dy + dz * dz)
    self._cos_a = dx / flat
    self._sin_a = dy / flat
    self._cos_b = flat / length
    self._sin_b = dz / length
    radius = 8.65725790883 * math.sqrt(length / self._frequency_mhz)
    self._outer_fresnel_radius = radius
    self._outer_fresnel_radius_sq = radius * radius
    inner = radius * self._los_confidence_threshold
    self._inner_fresnel_radius = inner
    self._inner_fresnel_radius_sq = inner * inner
    self._x_m = (x1 + x2) / 2
    self._y_m = (y1 + y2) / 2
    self._z_m = (z1 + z2) / 2
    self._half_distance_sq = (dx * dx + dy * dy + dz * dz) / 4
    self._half_xy_distance_sq = (dx * dx + dy * dy) / 4
    # a third point of the plane: horizontal and perpendicular to the line
    z3 = z1
    if dx != 0:
        x3 = x1 - dy / dx
        y3 = y1 + 1
    elif dy != 0:
        x3 = x1 + 1
        y3 = y1 - dx / dy
    else:
        raise LOSException("")
    a = dy * (z3 - z1) - dz * (y3 - y1)
    b = dz * (x3 - x1) - dx * (z3 - z1)
    c = dx * (y3 - y1) - dy * (x3 - x1)
    d = -(a * x1 + b * y1 + c * z1)
    self._a_over_c = a / c
    self._b_over_c = b / c
    self._d_over_c = d / c


def in_ellipse(self, fresnel_radius_sq: float, utm_x: float, utm_y: float):
    x = utm_x - self._x_m
    y = utm_y - self._y_m
    along = x * self._cos_a + y * self._sin_a
    across = x * self._sin_a - y * self._cos_a
    return along * along / self._half_xy_distance_sq + across * across / fresnel_radius_sq <= 1


def obstructs(self, point: Point3D):
    x = point[0]
    y = point[1]
    z = point[2]
    if x == self._site1.utm_x and y == self._site1.utm_y:
        return False
    if x == self._site2.utm_x and y == self._site2.utm_y:
        return False
    if self._los_confidence_threshold == 0:
        return False
    if not self.check_point_within_inner_ellipse(x, y):
        return False
    return z >= self._solve_for_lower_ellipsoid_height(x, y, self._inner_fresnel_radius_sq)


def max_radius(self, point: Point3D):
    x = point[0]
    y = point[1]
    z = point[2]
    if z < self._solve_for_lower_ellipsoid_height(x, y, self._outer_fresnel_radius_sq):
        return self._outer_fresnel_radius
    plane = -self._a_over_c * x - self._b_over_c * y - self._d_over_c
    if z < plane:
        return self._solve_for_max_fresnel_radius_3d(x, y, z)
    return self._solve_for_max_fresnel_radius_2d(x, y)


def lower_height(self, x: float, y: float, fresnel_radius_sq: float):
    dx = x - self._x_m
    dy = y - self._y_m
    ca = self._cos_a
    sa = self._sin_a
    cb = self._cos_b
    sb = self._sin_b
    along = dx * ca + dy * sa
    u = along * cb
    v = -along * sb
    w = dy * ca - dx * sa
    qa = sb * sb / self._half_distance_sq + cb * cb / fresnel_radius_sq
    qb = 2 * (u * sb / self._half_distance_sq + v * cb / fresnel_radius_sq)
    qc = u * u / self._half_distance_sq + v * v / fresnel_radius_sq + w * w / fresnel_radius_sq - 1
    if qa <= 0:
        raise LOSException("")
    qd = qb * qb - 4 * qa * qc
    if qd <= 0:
        return math.inf
    # the smaller root, in the form that does not cancel
    if qb >= 0:
        return self._z_m + (-qb - math.sqrt(qd)) / (2 * qa)
    return self._z_m + 2 * qc / (-qb + math.sqrt(qd))


def radius_2d(self, x: float, y: float):
    along = (x - self._x_m) * self._cos_a + (y - self._y_m) * self._sin_a
    across = (x - self._x_m) * self._sin_a - (y - self._y_m) * self._cos_a
    a = along * along / self._half_xy_distance_sq
    if a >= 1:
        return self._outer_fresnel_radius
    return math.sqrt(across * across / (1 - a))


def radius_3d(self, x: float, y: float, z: float):
    dx = x - self._x_m
    dy = y - self._y_m
    dz = z - self._z_m
    flat = dx * self._cos_a + dy * self._sin_a
    along = flat * self._cos_b + dz * self._sin_b
    side = dy * self._cos_a - dx * self._sin_a
    up = dz * self._cos_b - flat * self._sin_b
    a = along * along / self._half_distance_sq
    if a >= 1:
        return self._outer_fresnel_radius
    return math.sqrt((side * side + up * up) / (1 - a))


def obstructions(self, utm_x1: float, utm_y1: float, utm_x2: float, utm_y2: float, point_within_bounds: Callable[[float, float], bool]):
    box = self.utm_bounding_box
    xa = min(max(utm_x1, box.min_utm_x), box.max_utm_x)
    xb = min(max(utm_x2, box.min_utm_x), box.max_utm_x)
    ya = min(max(utm_y1, box.min_utm_y), box.max_utm_y)
    yb = min(max(utm_y2, box.min_utm_y), box.max_utm_y)
    xs = sorted([xa, xb])
    ys = sorted([ya, yb])
    left, top = self.utm_to_idx(xs[0], ys[1])
    right, bottom = self.utm_to_idx(xs[1], ys[0])
    out = []
    for row in range(top, bottom + 1):
        for column in range(left, right + 1):
            x, y = self.idx_to_utm(column, row)
            if point_within_bounds(x, y):
                out.append(Point3D(x, y, self.data_matrix[row, column]))
    return out


def to_utm(self, idx_x: int, idx_y: int):
    return idx_x * self.x_resolution + self.left_top_x, self.left_top_y - idx_y * self.y_resolution


def to_idx(self, utm_x: float, utm_y: float):
    column = round((utm_x - self.left_top_x) / self.x_resolution)
    row = round((self.left_top_y - utm_y) / self.y_resolution)
    return min(max(column, 0), self.x_size - 1), min(max(row, 0), self.y_size - 1)
