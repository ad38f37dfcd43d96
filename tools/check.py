#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, hashchecks, histchecks, circuitchecks, matrixchecks, genericchecks, configchecks, paramgenchecks
CHECKS = {
    "C01": (hashchecks.c01, "model_checking"),
    "C02": (hashchecks.c02, "model_checking"),
    "C03": (histchecks.c03, "model_checking"),
    "C04": (circuitchecks.c04, "model_checking"),
    "C05": (circuitchecks.c05, "model_checking"),
    "C06": (circuitchecks.c06, "model_checking"),
    "C07": (hashchecks.c07, "model_checking"),
    "C08": (hashchecks.c08, "model_checking"),
    "C09": (hashchecks.c09, "model_checking"),
    "C10": (matrixchecks.c10, "model_checking"),
    "C11": (matrixchecks.c11, "model_checking"),
    "C12": (matrixchecks.c12, "model_checking"),
    "C13": (genericchecks.c13, "model_checking"),
    "C14": (configchecks.c14, "model_checking"),
    "C15": (paramgenchecks.c15, "model_checking"),
    "C16": (paramgenchecks.c16, "model_checking"),
    "C17": (paramgenchecks.c17, "model_checking"),
}
if __name__ == "__main__":
    p = sys.argv[1]
    vlib.main(CHECKS[p][0], p, CHECKS[p][1])
