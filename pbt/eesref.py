"""Independent statement of the energy standard's factors for building parts: direction factors,
coefficients of adjacent spaces, simplified overhang correction, U-value of a section."""

REGIONS = list(range(1, 9))
COMPASS = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']
DIRECTIONS = ['top'] + COMPASS + ['bottom']
NOWHERE = ['upward', 'horizontal', 'downward']
SPACES = ['outdoor', 'open_space', 'closed_space', 'air_conditioned', 'open_underfloor', 'closed_underfloor']

# rows by region 1..8, columns by compass direction n ne e se s sw w nw
NU_H = [
    (.260, .333, .564, .823, .935, .790, .535, .325),
    (.263, .341, .554, .766, .856, .753, .544, .341),
    (.284, .348, .540, .751, .851, .750, .542, .351),
    (.256, .330, .531, .724, .815, .723, .527, .326),
    (.238, .310, .568, .846, .983, .815, .538, .297),
    (.261, .325, .579, .833, .936, .763, .523, .317),
    (.227, .281, .543, .843, 1.023, .848, .548, .284),
]
NU_C = [
    (.329, .430, .545, .560, .502, .526, .508, .411),
    (.341, .412, .503, .527, .507, .548, .529, .428),
    (.335, .390, .468, .487, .476, .550, .553, .447),
    (.322, .426, .518, .508, .437, .481, .481, .401),
    (.373, .437, .500, .500, .472, .520, .518, .442),
    (.341, .431, .512, .498, .434, .491, .504, .427),
    (.307, .415, .509, .490, .412, .479, .495, .406),
    (.325, .414, .515, .528, .480, .517, .505, .411),
]


def nu(direction, region, season):
    """direction factor; None where the standard defines none"""
    if season == 'heating' and region == 8:
        return None
    if direction == 'top':
        return 1.0
    if direction == 'bottom':
        return 0.0
    if direction not in COMPASS:
        return None
    return (NU_H if season == 'heating' else NU_C)[region - 1][COMPASS.index(direction)]


def h(space, region):
    if space in ('outdoor', 'open_space'):
        return 1.0
    if space in ('closed_space', 'open_underfloor'):
        return 0.7
    return 0.05 if region <= 3 else 0.15


def f_simple(depth, d_h, d_e, direction, region, season):
    """simplified overhang correction of a window; None where undefined"""
    if season == 'heating' and region == 8:
        return None
    if direction == 'top':
        return 1.0
    if direction == 'bottom':
        return 0.0
    if direction not in COMPASS:
        return None
    two, three = (2 * d_e + d_h) / depth, (3 * d_e + d_h) / depth
    south3 = direction in ('se', 's', 'sw')
    if season == 'heating':
        return min((5 + 20 * three if south3 else 10 + 15 * two) / 100, 0.72)
    if region == 8:
        return min((16 + (19 if south3 else 24) * two) / 100, 0.93)
    return min((24 + 9 * three if direction == 's' else 16 + 24 * two) / 100, 0.93)


def f_window(sun, direction, region, season):
    """correction of a window whose sunshade is described by the dict sun; None where undefined"""
    if not sun['is_defined']:
        return None
    if sun['input'] == 'simple':
        return f_simple(sun['depth'], sun['d_h'], sun['d_e'], direction, region, season)
    if sun['input'] == 'not_input':
        if season == 'heating':
            return None if region == 8 else 0.51
        return 0.93
    return None


def layer_r(l):
    return l['thickness'] / l['thermal_conductivity'] if l['heat_resistance_input_method'] == 'conductivity' else l['thermal_resistance']


def u_sections(spec):
    return [(p['part_area_ratio'], 1 / (spec['r_srf_in'] + sum(layer_r(l) for l in p['layers']) + spec['r_srf_ex'])) for p in spec['parts']]


def u_general(spec):
    if spec['structure'] == 'other':
        return spec['u_value_other']
    u = sum(r * v for r, v in u_sections(spec))
    return u + (spec['u_r_value_steel'] if spec['structure'] == 'steel' else 0.0)


def q_areal(d, u, region):
    return d['area'] * u * h(d['next_space'], region)


def m_opaque(d, u, region, season):
    """gain of a wall or door without a described overhang"""
    if d['next_space'] != 'outdoor':
        return 0.0
    return d['area'] * 0.034 * u * nu(d['direction'], region, season)


def m_window(d, region, season):
    if d['next_space'] != 'outdoor':
        return 0.0
    eta = d['spec']['eta_d_h_value' if season == 'heating' else 'eta_d_c_value']
    return d['area'] * eta * f_window(d['sunshade'], d['direction'], region, season) * nu(d['direction'], region, season)


def indices(env, region):
    """UA, etaAH (None in region 8), etaAC of an envelope description"""
    a = sum(p['area'] for k in ('general_parts', 'windows', 'doors', 'earthfloor_centers') for p in env[k])
    q = sum(q_areal(p, u_general(p['spec']), region) for p in env['general_parts'])
    q += sum(q_areal(p, p['spec']['u_value'], region) for k in ('windows', 'doors') for p in env[k])
    q += sum(p['length'] * p['spec']['psi_value'] * h(p['next_space'], region) for p in env['earthfloor_perimeters'])
    out = [q / a]
    for season in ('heating', 'cooling'):
        if season == 'heating' and region == 8:
            out.append(None)
            continue
        m = sum(m_opaque(p, u_general(p['spec']), region, season) for p in env['general_parts'])
        m += sum(m_opaque(p, p['spec']['u_value'], region, season) for p in env['doors'])
        m += sum(m_window(p, region, season) for p in env['windows'])
        out.append(m / a * 100)
    return out


def gain_window_unit(env, region, season):
    """gain of the windows per unit of their gain factor"""
    return sum(p['area'] * f_window(p['sunshade'], p['direction'], region, season) * nu(p['direction'], region, season)
               for p in env['windows'] if p['next_space'] == 'outdoor')


# standard U-values and psi-values, by region group 1-2, 3, 4-7, 8, and upper limits without insulation
STD = {
    'roof': (.17, .24, .24, .24), 'ceiling': (.17, .24, .24, .24), 'wall': (.35, .53, .53, 4.10), 'floor': (.34, .34, .48, 3.52),
    'upward_boundary_floor': (.17, .24, .24, .24), 'boundary_wall': (.35, .53, .53, 4.10), 'downward_boundary_floor': (.34, .34, .48, 3.52),
    'window': (2.33, 3.49, 4.65, 6.51), 'door': (2.33, 3.49, 4.65, 6.51), 'perimeter': (.53, .53, .76, 1.80),
}
_GYP, _PLY = .0095 / .22, .012 / .16
LIMIT = {
    'roof': 1 / (.09 + _GYP + .04), 'ceiling': 1 / (.09 + _GYP + .09), 'wall': 1 / (.11 + _GYP + .04), 'floor': 1 / (.15 + _PLY + .04),
    'upward_boundary_floor': 1 / (.09 + _GYP + .09), 'boundary_wall': 1 / (.11 + _GYP + .11), 'downward_boundary_floor': 1 / (.15 + _PLY + .15),
    'window': 6.51, 'door': 6.51, 'perimeter': 100.0,
}


def std(kind, region):
    return STD[kind][0 if region <= 2 else 1 if region == 3 else 2 if region <= 7 else 3]
