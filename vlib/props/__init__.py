MC = "model_checking"
REGISTRY = {
    "P01": ("pd_core", "p01", MC), "P02": ("pd_core", "p02", MC), "P03": ("pd_core", "p03", MC),
    "P04": ("pd_text", "p04", MC), "P05": ("pd_text", "p05", MC), "P06": ("pd_text", "p06", MC),
    "P07": ("pd_iso", "p07", MC), "P08": ("pd_iso", "p08", MC),
    "P09": ("pd_store", "p09", MC), "P10": ("pd_store", "p10", MC),
    "P11": ("pd_query", "p11", MC), "P12": ("pd_query", "p12", MC), "P13": ("pd_query", "p13", MC),
    "P14": ("pd_proj", "p14", MC),
    "P15": ("iters", "p15", MC), "P16": ("pd_tangle", "p16", MC),
    "P25": ("rope", "p25", MC), "P26": ("sym", "p26", MC), "P27": ("sym", "p27", MC),
    "P28": ("tsm", "p28", MC), "P29": ("tsm", "p29", MC), "P30": ("tsm", "p30", MC), "P31": ("tsm", "p31", MC),
    "P32": ("geo", "p32", MC), "P33": ("geo", "p33", MC),
    "P34": ("npl", "p34", MC), "P35": ("npl", "p35", MC), "P36": ("poly", "p36", MC),
    "P20": ("plc", "p20", MC), "P21": ("plc", "p21", MC), "P22": ("plc", "p22", MC), "P23": ("plc", "p23", MC), "P24": ("plc", "p24", MC),
}
