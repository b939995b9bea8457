// Spec data: home face and ijk+ coordinates of the 122 H3 base cells.
pub const BASE_HOME: [(u8, i8, i8, i8); 122] = [
    (1, 1, 0, 0), // 0
    (2, 1, 1, 0), // 1
    (1, 0, 0, 0), // 2
    (2, 1, 0, 0), // 3
    (0, 2, 0, 0), // 4 pentagon
    (1, 1, 1, 0), // 5
    (1, 0, 0, 1), // 6
    (2, 0, 0, 0), // 7
    (0, 1, 0, 0), // 8
    (2, 0, 1, 0), // 9
    (1, 0, 1, 0), // 10
    (1, 0, 1, 1), // 11
    (3, 1, 0, 0), // 12
    (3, 1, 1, 0), // 13
    (11, 2, 0, 0), // 14 pentagon
    (4, 1, 0, 0), // 15
    (0, 0, 0, 0), // 16
    (6, 0, 1, 0), // 17
    (0, 0, 0, 1), // 18
    (2, 0, 1, 1), // 19
    (7, 0, 0, 1), // 20
    (2, 0, 0, 1), // 21
    (0, 1, 1, 0), // 22
    (6, 0, 0, 1), // 23
    (10, 2, 0, 0), // 24 pentagon
    (6, 0, 0, 0), // 25
    (3, 0, 0, 0), // 26
    (11, 1, 0, 0), // 27
    (4, 1, 1, 0), // 28
    (3, 0, 1, 0), // 29
    (0, 0, 1, 1), // 30
    (4, 0, 0, 0), // 31
    (5, 0, 1, 0), // 32
    (0, 0, 1, 0), // 33
    (7, 0, 1, 0), // 34
    (11, 1, 1, 0), // 35
    (7, 0, 0, 0), // 36
    (10, 1, 0, 0), // 37
    (12, 2, 0, 0), // 38 pentagon
    (6, 1, 0, 1), // 39
    (7, 1, 0, 1), // 40
    (4, 0, 0, 1), // 41
    (3, 0, 0, 1), // 42
    (3, 0, 1, 1), // 43
    (4, 0, 1, 0), // 44
    (6, 1, 0, 0), // 45
    (11, 0, 0, 0), // 46
    (8, 0, 0, 1), // 47
    (5, 0, 0, 1), // 48
    (14, 2, 0, 0), // 49 pentagon
    (5, 0, 0, 0), // 50
    (12, 1, 0, 0), // 51
    (10, 1, 1, 0), // 52
    (4, 0, 1, 1), // 53
    (12, 1, 1, 0), // 54
    (7, 1, 0, 0), // 55
    (11, 0, 1, 0), // 56
    (10, 0, 0, 0), // 57
    (13, 2, 0, 0), // 58 pentagon
    (10, 0, 0, 1), // 59
    (11, 0, 0, 1), // 60
    (9, 0, 1, 0), // 61
    (8, 0, 1, 0), // 62
    (6, 2, 0, 0), // 63 pentagon
    (8, 0, 0, 0), // 64
    (9, 0, 0, 1), // 65
    (14, 1, 0, 0), // 66
    (5, 1, 0, 1), // 67
    (16, 0, 1, 1), // 68
    (8, 1, 0, 1), // 69
    (5, 1, 0, 0), // 70
    (12, 0, 0, 0), // 71
    (7, 2, 0, 0), // 72 pentagon
    (12, 0, 1, 0), // 73
    (10, 0, 1, 0), // 74
    (9, 0, 0, 0), // 75
    (13, 1, 0, 0), // 76
    (16, 0, 0, 1), // 77
    (15, 0, 1, 1), // 78
    (15, 0, 1, 0), // 79
    (16, 0, 1, 0), // 80
    (14, 1, 1, 0), // 81
    (13, 1, 1, 0), // 82
    (5, 2, 0, 0), // 83 pentagon
    (8, 1, 0, 0), // 84
    (14, 0, 0, 0), // 85
    (9, 1, 0, 1), // 86
    (14, 0, 0, 1), // 87
    (17, 0, 0, 1), // 88
    (12, 0, 0, 1), // 89
    (16, 0, 0, 0), // 90
    (17, 0, 1, 1), // 91
    (15, 0, 0, 1), // 92
    (16, 1, 0, 1), // 93
    (9, 1, 0, 0), // 94
    (15, 0, 0, 0), // 95
    (13, 0, 0, 0), // 96
    (8, 2, 0, 0), // 97 pentagon
    (13, 0, 1, 0), // 98
    (17, 1, 0, 1), // 99
    (19, 0, 1, 0), // 100
    (14, 0, 1, 0), // 101
    (19, 0, 1, 1), // 102
    (17, 0, 1, 0), // 103
    (13, 0, 0, 1), // 104
    (17, 0, 0, 0), // 105
    (16, 1, 0, 0), // 106
    (9, 2, 0, 0), // 107 pentagon
    (15, 1, 0, 1), // 108
    (15, 1, 0, 0), // 109
    (18, 0, 1, 1), // 110
    (18, 0, 0, 1), // 111
    (19, 0, 0, 1), // 112
    (17, 1, 0, 0), // 113
    (19, 0, 0, 0), // 114
    (18, 0, 1, 0), // 115
    (18, 1, 0, 1), // 116
    (19, 2, 0, 0), // 117 pentagon
    (19, 1, 0, 0), // 118
    (18, 0, 0, 0), // 119
    (19, 1, 0, 1), // 120
    (18, 1, 0, 0), // 121
];

// Spec data: orientation of the 20 icosahedron faces: (center lat, center lng, azimuth of the class II i axis), radians.
pub const FACES: [(f64, f64, f64); 20] = [
    (0.803582649718989942, 1.248397419617396099, 5.619958268523939882),
    (1.307747883455638156, 2.536945009877921159, 5.760339081714187279),
    (1.054751253523952054, -1.347517358900396623, 0.780213654393430055),
    (0.600191595538186799, -0.450603909469755746, 0.430469363979999913),
    (0.491715428198773866, 0.401988202911306943, 6.130269123335111400),
    (0.172745327415618701, 1.678146885280433686, 2.692877706530642877),
    (0.605929321571350690, 2.953923329812411617, 2.982963003477243874),
    (0.427370518328979641, -1.888876200336285401, 3.532912002790141181),
    (-0.079066118549212831, -0.733429513380867741, 3.494305004259568154),
    (-0.230961644455383637, 0.506495587332349035, 3.003214169499538391),
    (0.079066118549212831, 2.408163140208925497, 5.930472956509811562),
    (0.230961644455383637, -2.635097066257444203, 0.138378484090254847),
    (-0.172745327415618701, -1.463445768309359553, 0.448714947059150361),
    (-0.605929321571350690, -0.187669323777381622, 0.158629650112549365),
    (-0.427370518328979641, 1.252716453253507838, 5.891865957979238535),
    (-0.600191595538186799, 2.690988744120037492, 2.711123289609793325),
    (-0.491715428198773866, -2.739604450678486295, 3.294508837434268316),
    (-0.803582649718989942, -1.893195233972397139, 3.804819692245439833),
    (-1.307747883455638156, -0.604647643711872080, 3.664438879055192436),
    (-1.054751253523952054, 1.794075294689396615, 2.361378999196363184),
];
