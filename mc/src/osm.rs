//! What OpenStreetMap-tags mean, as the import defines it: the reference of C10.

/// name, lanes, km/h, usable by a (car, bicycle, pedestrian), each if its driver is [not picky, picky]
#[rustfmt::skip]
pub const CATEGORIES: &[(&str, u8, f64, [[bool; 2]; 3])] = &[
    ("motorway", 3, 130.0, [[true, true], [false, false], [false, false]]),
    ("motorway_link", 1, 50.0, [[true, true], [false, false], [false, false]]),
    ("trunk", 2, 100.0, [[true, true], [false, false], [false, false]]),
    ("trunk_link", 1, 50.0, [[true, true], [false, false], [false, false]]),
    ("primary", 2, 100.0, [[true, true], [true, false], [false, false]]),
    ("primary_link", 1, 30.0, [[true, true], [true, false], [false, false]]),
    ("secondary", 1, 70.0, [[true, true], [true, false], [false, false]]),
    ("secondary_link", 1, 30.0, [[true, true], [true, false], [false, false]]),
    ("tertiary", 1, 70.0, [[true, true], [true, true], [false, false]]),
    ("tertiary_link", 1, 30.0, [[true, true], [true, true], [false, false]]),
    ("unclassified", 1, 50.0, [[true, true], [true, true], [false, false]]),
    ("residential", 1, 50.0, [[true, true], [true, true], [true, true]]),
    ("living_street", 1, 15.0, [[true, true], [true, true], [true, true]]),
    ("service", 1, 20.0, [[false, false], [true, true], [true, true]]),
    ("track", 1, 30.0, [[true, false], [true, false], [true, true]]),
    ("road", 1, 50.0, [[false, false], [false, false], [false, false]]),
    ("cycleway", 1, 25.0, [[false, false], [true, true], [false, false]]),
    ("pedestrian", 1, 5.0, [[false, false], [true, false], [true, true]]),
    ("path", 1, 15.0, [[false, false], [true, false], [true, true]]),
];

/// highway-value, category ("": no street)
#[rustfmt::skip]
pub const HIGHWAY: &[(&str, &str)] = &[
    ("motorway", "motorway"),
    ("motorway_link", "motorway_link"),
    ("trunk", "trunk"),
    ("trunk_link", "trunk_link"),
    ("primary", "primary"),
    ("primary_link", "primary_link"),
    ("secondary", "secondary"),
    ("secondary_link", "secondary_link"),
    ("tertiary", "tertiary"),
    ("tertiary_link", "tertiary_link"),
    ("traffic_calming", "tertiary_link"),
    ("unclassified_link", "tertiary_link"),
    ("give_way", "unclassified"),
    ("unclassified", "unclassified"),
    ("unclasified", "unclassified"),
    ("area:residential", "residential"),
    ("asphalt", "residential"),
    ("junction", "residential"),
    ("mini_roundabout", "residential"),
    ("residential", "residential"),
    ("living_street", "living_street"),
    ("razed:service", "service"),
    ("service;yes", "service"),
    ("service", "service"),
    ("sevice", "service"),
    ("service2", "service"),
    ("swervice", "service"),
    ("byway", "track"),
    ("historic", "track"),
    ("path;unclassified", "track"),
    ("tra#", "track"),
    ("track", "track"),
    ("track;path", "track"),
    ("trank", "track"),
    ("track; cycleway; cycleway; track; track", "track"),
    ("4", "road"),
    ("bridge", "road"),
    ("fixme", "road"),
    ("parking_aisle", "road"),
    ("road", "road"),
    ("yes", "road"),
    ("cycleway", "cycleway"),
    ("bridleway", "cycleway"),
    ("access_ramp", "pedestrian"),
    ("access", "pedestrian"),
    ("alley", "pedestrian"),
    ("corridor", "pedestrian"),
    ("crossing", "pedestrian"),
    ("elevator", "pedestrian"),
    ("footpath", "pedestrian"),
    ("footway rad frei", "pedestrian"),
    ("footway;service", "pedestrian"),
    ("footway", "pedestrian"),
    ("fo", "pedestrian"),
    ("f", "pedestrian"),
    ("pa", "pedestrian"),
    ("pedestrian", "pedestrian"),
    ("private_footway", "pedestrian"),
    ("ramp", "pedestrian"),
    ("schoolyard", "pedestrian"),
    ("sidewalk", "pedestrian"),
    ("stairs", "pedestrian"),
    ("steps", "pedestrian"),
    ("trail", "pedestrian"),
    ("virtual", "pedestrian"),
    ("vitrual", "pedestrian"),
    ("yes;footway", "pedestrian"),
    ("informal_path", "path"),
    ("ladder", "path"),
    ("path---", "path"),
    ("path;steps", "path"),
    ("path", "path"),
    ("path/cycleway", "path"),
    ("pathless", "path"),
    ("85", ""),
    ("abondoned", ""),
    ("abandoned:highway", ""),
    ("abandoned:path", ""),
    ("abandoned:service", ""),
    ("abandoned", ""),
    ("bus_guideway", ""),
    ("bus_stop", ""),
    ("bus", ""),
    ("busway", ""),
    ("centre_line", ""),
    ("climbing_access", ""),
    ("common", ""),
    ("under construction", ""),
    ("construction", ""),
    ("constuction", ""),
    ("demolished", ""),
    ("dismantled", ""),
    ("disused:track", ""),
    ("disused", ""),
    ("duckboards", ""),
    ("emergency_access_point", ""),
    ("emergency_bay", ""),
    ("escalator", ""),
    ("escape", ""),
    ("foot", ""),
    ("fuel", ""),
    ("in planung", ""),
    ("island", ""),
    ("layby", ""),
    ("loading_place", ""),
    ("lohwiese", ""),
    ("never_built", ""),
    ("nicht mehr in benutzung", ""),
    ("no", ""),
    ("none", ""),
    ("p", ""),
    ("passing_place", ""),
    ("piste", ""),
    ("place", ""),
    ("planned", ""),
    ("platform", ""),
    ("private", ""),
    ("project", ""),
    ("projected", ""),
    ("proposed", ""),
    ("raceway", ""),
    ("razed", ""),
    ("removed", ""),
    ("rest_area", ""),
    ("ser", ""),
    ("sere", ""),
    ("services", ""),
    ("stop_line", ""),
    ("stop", ""),
    ("street_lamp", ""),
    ("tidal_path", ""),
    ("traffic_island", ""),
    ("traffic_signals", ""),
    ("turning_circle", ""),
    ("turning_loop", ""),
    ("unused", ""),
    ("via_ferrata", ""),
    ("virtual_rail", ""),
];

/// maxspeed-value, km/h (-1: as the category)
#[rustfmt::skip]
pub const MAXSPEED: &[(&str, f64)] = &[
    ("de:motorway", 130.0),
    ("100, 70", 100.0),
    ("100; 50", 100.0),
    ("100;70;50", 100.0),
    ("100;70", 100.0),
    ("100;80", 100.0),
    ("100|70", 100.0),
    ("50; 100", 100.0),
    ("50;100", 100.0),
    ("60 mph", 100.0),
    ("50 mph", 80.0),
    ("60;80", 80.0),
    ("80;60", 80.0),
    ("70; 50", 70.0),
    ("50;70", 70.0),
    ("50; 70", 70.0),
    ("40 mph", 70.0),
    ("60;50", 60.0),
    ("20; 50", 50.0),
    ("30 mph", 50.0),
    ("30,50", 50.0),
    ("30; 50", 50.0),
    ("30;50", 50.0),
    ("50; 30", 50.0),
    ("50;30", 50.0),
    ("50b", 50.0),
    ("5ß", 50.0),
    ("de:urban", 50.0),
    ("maxspeed=50", 50.0),
    ("20 mph", 30.0),
    ("30 @ (mo-fr 06:00-18:00)", 30.0),
    ("30 kph", 30.0),
    ("30;10", 30.0),
    ("30; 40", 30.0),
    ("3ß", 30.0),
    ("conditional=30 @ (mo-fr 06:00-22:00)", 30.0),
    ("de:zone:30", 30.0),
    ("de:zone30", 30.0),
    ("zone:maxspeed=de:30", 30.0),
    ("15 mph", 25.0),
    ("2ß", 20.0),
    ("de:bicycle_road", 25.0),
    ("10 mph", 15.0),
    ("10#", 15.0),
    ("1ß", 15.0),
    ("3 mph", 15.0),
    ("4-6", 15.0),
    ("4-7", 15.0),
    ("5 mph", 15.0),
    ("6 km/h", 15.0),
    ("6,5", 15.0),
    ("7-10", 15.0),
    ("de:living_street", 15.0),
    ("de:walk", 15.0),
    ("schrittgeschwindigkeit", 15.0),
    ("walk", 15.0),
    ("*", -1.0),
    ("20:forward", -1.0),
    ("30+", -1.0),
    ("at:rural", -1.0),
    ("at:urban", -1.0),
    ("cz:urban", -1.0),
    ("de:274.1[30]", -1.0),
    ("de:rural", -1.0),
    ("de", -1.0),
    ("fixme:höchster üblicher wert", -1.0),
    ("hgv=30", -1.0),
    ("nome", -1.0),
    ("none", -1.0),
    ("posted time dependent", -1.0),
    ("signal", -1.0),
    ("signals", -1.0),
    ("variable", -1.0),
];

/// oneway-value, 1: along the way, -1: against it, 0: both
#[rustfmt::skip]
pub const ONEWAY: &[(&str, i8)] = &[
    ("1", 1),
    ("left;through", 1),
    ("motor_vehicle", 1),
    ("recommended", 1),
    ("shelter", 1),
    ("use_sidepath", 1),
    ("yes + oneway:bicycle=no", 1),
    ("yes", 1),
    ("´-1", -1),
    ("-1", -1),
    ("-1;no", -1),
    ("alternating", 0),
    ("bicycle", 0),
    ("cycle_barrier", 0),
    ("fixme", 0),
    ("no", 0),
    ("reversible", 0),
    ("undefined", 0),
    ("unknown", 0),
    ("yes @ (2018 aug 0 - 2018 dec 21)", 0),
    ("yes;no", 0),
];
