INDEX = {
    "A01": "axi_master", "A02": "axi_master", "A03": "axi_master", "A04": "axi_master",
    "L01": "lite_apb", "B01": "lite_apb",
    "A08": "slaves", "A09": "slaves", "A10": "slaves", "L02": "slaves", "B02": "slaves",
    "A05": "requests", "A06": "requests",
    "M01": "memories", "M02": "memories", "M03": "memories", "M04": "memories", "M05": "memories", "M06": "memories",
    "X04": "frames",
    "S01": "streams", "S02": "streams",
    "X01": "axis", "X02": "axis", "X03": "axis",
    "R01": "resets", "R02": "resets",
    "A07": "handshake",
    "C01": "compose",
    "P01": "pauses",
    "U01": "binding",
    "I01": "independence", "O01": "observers",
}
