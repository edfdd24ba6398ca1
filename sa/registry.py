"""which rule module decides which property"""
MODULES = {
    "graph": ["G01", "G02", "G03", "G04", "G05"],
    "pose": ["A01", "A02", "A03", "C02"],
    "edges": ["M01", "M02", "M03", "W01", "W02", "S01", "S02", "S03"],
    "grid": ["V01", "V02", "V03", "V04", "V05", "V06", "V07", "V08"],
    "cell": ["N01", "N02", "N03", "N04", "N05"],
    "reg": ["R01", "R02", "R03", "R04", "C01", "H01", "H02", "H03", "H04", "H05"],
}
WHERE = {p: m for m, ps in MODULES.items() for p in ps}
