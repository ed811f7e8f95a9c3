"""What the texts of tags stand for: every text the code knows."""
SPEEDS = {
    'de:motorway': 130,
    '100, 70': 100,
    '100; 50': 100,
    '100;70;50': 100,
    '100;70': 100,
    '100;80': 100,
    '100|70': 100,
    '50; 100': 100,
    '50;100': 100,
    '60 mph': 100,
    '50 mph': 80,
    '60;80': 80,
    '80;60': 80,
    '70; 50': 70,
    '50;70': 70,
    '50; 70': 70,
    '40 mph': 70,
    '60;50': 60,
    '20; 50': 50,
    '30 mph': 50,
    '30,50': 50,
    '30; 50': 50,
    '30;50': 50,
    '50; 30': 50,
    '50;30': 50,
    '50b': 50,
    '5ß': 50,
    'de:urban': 50,
    'maxspeed=50': 50,
    '20 mph': 30,
    '30 @ (mo-fr 06:00-18:00)': 30,
    '30 kph': 30,
    '30;10': 30,
    '30; 40': 30,
    '3ß': 30,
    'conditional=30 @ (mo-fr 06:00-22:00)': 30,
    'de:zone:30': 30,
    'de:zone30': 30,
    'zone:maxspeed=de:30': 30,
    '15 mph': 25,
    '2ß': 20,
    'de:bicycle_road': 25,
    '10 mph': 15,
    '10#': 15,
    '1ß': 15,
    '3 mph': 15,
    '4-6': 15,
    '4-7': 15,
    '5 mph': 15,
    '6 km/h': 15,
    '6,5': 15,
    '7-10': 15,
    'de:living_street': 15,
    'de:walk': 15,
    'schrittgeschwindigkeit': 15,
    'walk': 15,
    '*': None,
    '20:forward': None,
    '30+': None,
    'at:rural': None,
    'at:urban': None,
    'cz:urban': None,
    'de:274.1[30]': None,
    'de:rural': None,
    'de': None,
    'fixme:höchster üblicher wert': None,
    'hgv=30': None,
    'nome': None,
    'none': None,
    'posted time dependent': None,
    'signal': None,
    'signals': None,
    'variable': None,
}
ONEWAY = {
    '1': (1, 0),
    'left;through': (1, 0),
    'motor_vehicle': (1, 0),
    'recommended': (1, 0),
    'shelter': (1, 0),
    'use_sidepath': (1, 0),
    'yes + oneway:bicycle=no': (1, 0),
    'yes': (1, 0),
    '´-1': (1, 1),
    '-1': (1, 1),
    '-1;no': (1, 1),
    'alternating': (0, 0),
    'bicycle': (0, 0),
    'cycle_barrier': (0, 0),
    'fixme': (0, 0),
    'no': (0, 0),
    'reversible': (0, 0),
    'undefined': (0, 0),
    'unknown': (0, 0),
    'yes @ (2018 aug 0 - 2018 dec 21)': (0, 0),
    'yes;no': (0, 0),
}
TAGS = {
    'motorway': 'Motorway',
    'motorway_link': 'MotorwayLink',
    'trunk': 'Trunk',
    'trunk_link': 'TrunkLink',
    'primary': 'Primary',
    'primary_link': 'PrimaryLink',
    'secondary': 'Secondary',
    'secondary_link': 'SecondaryLink',
    'tertiary': 'Tertiary',
    'tertiary_link': 'TertiaryLink',
    'traffic_calming': 'TertiaryLink',
    'unclassified_link': 'TertiaryLink',
    'give_way': 'Unclassified',
    'unclassified': 'Unclassified',
    'unclasified': 'Unclassified',
    'area:residential': 'Residential',
    'asphalt': 'Residential',
    'junction': 'Residential',
    'mini_roundabout': 'Residential',
    'residential': 'Residential',
    'living_street': 'LivingStreet',
    'razed:service': 'Service',
    'service;yes': 'Service',
    'service': 'Service',
    'sevice': 'Service',
    'service2': 'Service',
    'swervice': 'Service',
    'byway': 'Track',
    'historic': 'Track',
    'path;unclassified': 'Track',
    'tra#': 'Track',
    'track': 'Track',
    'track;path': 'Track',
    'trank': 'Track',
    'track; cycleway; cycleway; track; track': 'Track',
    '4': 'Road',
    'bridge': 'Road',
    'fixme': 'Road',
    'parking_aisle': 'Road',
    'road': 'Road',
    'yes': 'Road',
    'cycleway': 'Cycleway',
    'bridleway': 'Cycleway',
    'access_ramp': 'Pedestrian',
    'access': 'Pedestrian',
    'alley': 'Pedestrian',
    'corridor': 'Pedestrian',
    'crossing': 'Pedestrian',
    'elevator': 'Pedestrian',
    'footpath': 'Pedestrian',
    'footway rad frei': 'Pedestrian',
    'footway;service': 'Pedestrian',
    'footway': 'Pedestrian',
    'fo': 'Pedestrian',
    'f': 'Pedestrian',
    'pa': 'Pedestrian',
    'pedestrian': 'Pedestrian',
    'private_footway': 'Pedestrian',
    'ramp': 'Pedestrian',
    'schoolyard': 'Pedestrian',
    'sidewalk': 'Pedestrian',
    'stairs': 'Pedestrian',
    'steps': 'Pedestrian',
    'trail': 'Pedestrian',
    'virtual': 'Pedestrian',
    'vitrual': 'Pedestrian',
    'yes;footway': 'Pedestrian',
    'informal_path': 'Path',
    'ladder': 'Path',
    'path---': 'Path',
    'path;steps': 'Path',
    'path': 'Path',
    'path/cycleway': 'Path',
    'pathless': 'Path',
}
NOWAY = [
    '85',
    'abondoned',
    'abandoned:highway',
    'abandoned:path',
    'abandoned:service',
    'abandoned',
    'bus_guideway',
    'bus_stop',
    'bus',
    'busway',
    'centre_line',
    'climbing_access',
    'common',
    'under construction',
    'construction',
    'constuction',
    'demolished',
    'dismantled',
    'disused:track',
    'disused',
    'duckboards',
    'emergency_access_point',
    'emergency_bay',
    'escalator',
    'escape',
    'foot',
    'fuel',
    'in planung',
    'island',
    'layby',
    'loading_place',
    'lohwiese',
    'never_built',
    'nicht mehr in benutzung',
    'no',
    'none',
    'p',
    'passing_place',
    'piste',
    'place',
    'planned',
    'platform',
    'private',
    'project',
    'projected',
    'proposed',
    'raceway',
    'razed',
    'removed',
    'rest_area',
    'ser',
    'sere',
    'services',
    'stop_line',
    'stop',
    'street_lamp',
    'tidal_path',
    'traffic_island',
    'traffic_signals',
    'turning_circle',
    'turning_loop',
    'unused',
    'via_ferrata',
    'virtual_rail',
]
