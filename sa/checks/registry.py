"""property -> (rule function, minimum number of obligations on a healthy tree)"""
from . import xmlrt, api, effects, csvx, classes, imports, files, indep, draw, order, wellformed


def c08(rep, tier):
    api.c08(rep, tier)
    csvx.c08_csv(rep, tier)


CHECKS = {
    "C01": (xmlrt.c01, 100),
    "C02": (xmlrt.c02, 300),
    "C03": (xmlrt.c03, 200),
    "C04": (xmlrt.c04, 200),
    "C05": (xmlrt.c05, 40),
    "C06": (xmlrt.c06, 10),
    "C07": (api.c07, 300),
    "C08": (c08, 100),
    "C09": (api.c09, 40),
    "C10": (api.c10, 100),
    "C11": (effects.c11, 200),
    "C12": (effects.c12, 200),
    "C13": (indep.c13, 60),
    "C14": (effects.c14, 200),
    "C16": (csvx.c16, 200),
    "C17": (csvx.c17, 200),
    "C18": (classes.c18, 1000),
    "C19": (imports.c19, 500),
    "C20": (files.c20, 60),
    "C21": (order.c21, 60),
    "C22": (order.c22, 60),
    "C23": (draw.c23, 60),
    "C24": (api.c24, 100),
    "C25": (effects.c25, 200),
    "C27": (effects.c27, 200),
    "C28": (effects.c28, 100),
    "C31": (wellformed.c31, 500),
    "C15": (xmlrt.c15, 300),
}

TECH = {}
