"""Which module of pf.props decides which property."""
MODULE_OF = {}
for _m, _ids in {
    "parsing": ["S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S10", "S11"],
    "diagnostics": ["S09"],
    "serializing": ["S20", "S21", "S22"],
    "trees": ["S30", "S31", "S32", "S33", "S34"],
    "highlighting": ["P01", "P02"],
    "resolving": ["R01", "R02", "R03", "R04", "R05", "R06", "R07", "R10"],
    "bundles": ["R08", "R09", "R17"],
    "values": ["R11", "R12", "R13", "R14"],
    "localizing": ["R15", "R16"],
    "tools": ["T01", "D01"],
}.items():
    for _i in _ids:
        MODULE_OF[_i] = _m
