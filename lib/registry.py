CHECKS = {
    "P01": ("chk_dupi", "p01"), "P02": ("chk_dupi", "p02"), "P03": ("chk_dupi", "p03"),
    "P04": ("chk_conc", "p04"),
    "P05": ("chk_dupi", "p05"), "P06": ("chk_dupi", "p06"), "P07": ("chk_dupi", "p07"),
    "P08": ("chk_lock", "p08"),
    "P09": ("chk_lock", "p09"),
    "P10": ("chk_crash", "p10"), "P11": ("chk_crash", "p11"), "P24": ("chk_crash", "p24"),
    "P12": ("chk_text", "p12"), "P13": ("chk_text", "p13"), "P14": ("chk_text", "p14"),
    "P15": ("chk_dupi", "p15"), "P16": ("chk_dupi", "p16"),
    "P17": ("chk_cli", "p17"), "P18": ("chk_cli", "p18"), "P19": ("chk_cli", "p19"), "P20": ("chk_cli", "p20"),
    "P27": ("chk_cli", "p27"),
    "P26": ("chk_text", "p26"),
    "P25": ("chk_bloom", "p25"),
    "P23": ("chk_golden", "p23"),
    "P21": ("chk_dupi", "p21"), "P22": ("chk_dupi", "p22"),
}
LEVELS = {}
