import importlib

MAP = {
    "C01": ("scalar", "c01"), "C02": ("scalar", "c02"), "C03": ("scalar", "c03"), "C04": ("scalar", "c04"),
    "C05": ("scalar", "c05"), "C06": ("scalar", "c06"),
    "C07": ("streams", "c07"), "C08": ("streams", "c08"), "C09": ("streams", "c09"), "C12": ("streams", "c12"),
    "C17": ("objects", "c17"), "C18": ("objects", "c18"), "C20": ("objects", "c20"),
    "C10": ("predicates", "c10"), "C11": ("predicates", "c11"), "C13": ("predicates", "c13"),
    "C14": ("safety", "c14"), "C15": ("safety", "c15"),
    "C23": ("stability", "c23"), "C21": ("config", "c21"), "C22": ("config", "c22"),
    "C16": ("streams", "c16"), "C19": ("streams", "c19"), "C27": ("config", "c27"), "C28": ("streams", "c28"),
}


def run(prop, ctx):
    mod, fn = MAP[prop]
    getattr(importlib.import_module(mod), fn)(ctx)
