'''The units a user relies on, stated independently of the library's table: size in the class's reference unit.'''
SIZE = {
    'length': {
        'm': 1.0, 'meter': 1.0, 'meters': 1.0,
        'mm': 0.001, 'millimeter': 0.001, 'millimeters': 0.001,
        'cm': 0.01, 'centimeter': 0.01, 'centimeters': 0.01,
        'in': 0.0254, 'inch': 0.0254, 'inches': 0.0254,
        'ft': 0.3048, 'foot': 0.3048, 'feet': 0.3048,
        'fathoms': 1.8288, 'cubits': 0.4572,
    },
    'weight': {
        'kg': 1.0, 'kilograms': 1.0, 'g': 0.001, 'grams': 0.001,
        'lbs': 0.45359, 'pounds': 0.45359, 'lb': 0.45359, 'stone': 6.3503,
    },
    'angle': {'deg': 1.0, 'degrees': 1.0, 'rad': 57.29577951, 'radians': 57.29577951},
    'time': {
        'sec': 1.0, 'second': 1.0, 'seconds': 1.0, 'min': 60.0, 'minute': 60.0, 'minutes': 60.0,
        'hr': 3600.0, 'hour': 3600.0, 'hours': 3600.0, 'day': 86400.0, 'days': 86400.0,
        'yr': 31556908.8, 'year': 31556908.8, 'years': 31556908.8,
    },
    'time_rate': {'hours_per_week': 1.0},
}

CLASS = {}
UNIT = {}
for _c in SIZE:
    for _u in SIZE[_c]:
        CLASS[_u] = _c
        UNIT[_u] = SIZE[_c][_u]


def ratio(a, b):
    return UNIT[a] / UNIT[b]
