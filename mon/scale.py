"""Workload multipliers (quick, thorough) per property: quick aims at about 3 s, thorough at about 60 s."""
SCALE = {
    "A01": (7, 8),
    "A02": (16, 23),
    "A03": (17, 15),
    "A04": (19, 24),
    "A05": (9, 12),
    "B01": (9, 14),
    "B02": (17, 24),
    "B03": (9, 17),
    "B04": (20, 24),
    "B05": (7, 24),
    "B06": (10, 5),
    "B07": (12, 11),
    "D01": (6, 14),
    "D02": (2, 3),
    "D03": (11, 22),
    "D04": (12, 16),
    "D05": (5, 8),
    "D06": (6, 14),
    "D07": (12, 24),
    "V01": (20, 24),
    "V02": (14, 24),
    "V03": (12, 22),
    "V04": (4, 7),
    "F01": (20, 24),
    "F02": (20, 24),
    "F03": (20, 24),
    "L01": (6, 14),
    "L02": (5, 8),
    "L03": (16, 24),
    "L04": (6, 10),
    "L05": (3, 8),
    "L06": (7, 14),
    "G01": (12, 19),
    "G02": (19, 24),
    "G03": (18, 24),
    "K01": (20, 24),
    "K02": (7, 13),
    "K03": (20, 24),
    "C01": (3, 4),
    "C02": (9, 14),
    "I01": (6, 5),
    "P01": (5, 6),
    "P02": (7, 9),
    "Q01": (19, 23),
    "Q02": (1, 1),
    "S01": (11, 4),
    "S02": (7, 17),
    "S03": (7, 8),
    "M01": (10, 11),
    "M02": (7, 9),
    "M03": (3, 11),
    "U01": (19, 14),
    "U02": (12, 12),
    "U03": (6, 6),
    "X02": (2, 3),
    "X03": (3, 5),
    "X04": (3, 4),
    "X05": (2, 5),
    "X06": (6, 24),
    "X07": (2, 5),
    "X08": (2, 4),
    "X09": (4, 8),
}
