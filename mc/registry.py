"""Which modules decide which property: mode full = probed code (engine A), shim = modelled runtime only (engine B)."""


def A(module, venv="pb5"):
    return {"module": module, "mode": "full", "venv": venv}


def B(module, venv="pb5"):
    return {"module": module, "mode": "shim", "venv": venv}


PARTS = {
    "H01": [B("h01")],
    "X02": [B("x02")],
    "D01": [B("d01"), A("d01a")],
    "X01": [B("x01")],
    "S01": [B("s01")],
    "S02": [B("s02", "pb3")],
    "K01": [B("k01")],
    "R01": [B("r01"), A("r01a")],
    "E05": [B("e05"), B("e05p", "pb3")],
    "E01": [B("e01")],
    "E02": [A("e02a"), B("e02")],
    "E03": [B("e03")],
    "E04": [B("e04"), A("e04a")],
    "G02": [B("g02")],
    "G01": [B("g01"), A("g01a")],
    "L02": [B("l02"), A("l02a")],
    "F01": [A("f01")],
    "M08": [B("m08"), A("m08a")],
    "M07": [B("m07"), A("m07a")],
    "M05": [A("m05")],
    "M09": [B("m09"), A("m09a")],
    "M10": [B("m10"), A("m10a")],
    "M06": [B("m06")],
    "M04": [B("m04")],
    "M03": [B("m03")],
    "M02": [B("m02")],
    "M01": [B("m01")],
    "T01": [A("t01")],
    "T02": [A("t02")],
    "A01": [B("a01")],
    "T05": [B("t05")],
    "T08": [B("t08")],
    "T09": [B("t09")],
    "T10": [B("t10")],
    "T03": [B("t03"), A("t03a")],
    "T04": [B("t04"), A("t04a")],
    "T06": [B("t06")],
    "T07": [B("t07")],
    "L01": [A("l01")],
    "C02": [B("c02")],
    "C03": [B("c03")],
    "C01": [B("c01"), A("c01a")],
    "C06": [B("c06")],
    "C04": [B("c04")],
    "C05": [B("c05")],
}
