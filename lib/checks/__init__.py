REGISTRY = {
    "C01": ("errors", "sticky"),
    "C02": ("errors", "propagate"),
    "C08": ("spoff", "check"),
    "C10": ("testmode", "check"),
    "C03": ("owner", "check"),
    "C04": ("wx", "check"),
    "C11": ("context", "check"),
    "C12": ("serial", "check"),
    "C07": ("scratch", "check"),
    "C09": ("args", "check"),
    "C05": ("shared", "check"),
    "C14": ("observe", "check"),
    "C06": ("uninit", "check"),
    "C15": ("regs", "check"),
    "C16": ("features", "check"),
    "C17": ("alias", "check"),
    "C18": ("effects", "check"),
    "C19": ("effects", "check"),
    "C20": ("reach", "check"),
    "C21": ("flags", "check"),
    "C22": ("machineops", "check_memory"),
    "C23": ("machineops", "check_arithmetic"),
    "C24": ("conditions", "check_conditions"),
}
