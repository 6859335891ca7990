"""Contracts, one module per part of the system; see MODULES."""
import importlib

MODULES = {
    "C01": ["store"],
    "C02": ["store"],
    "C03": ["transform"],
    "C04": ["rng"],
    "C05": ["naming"],
    "C06": ["scoping"],
    "C07": ["hooks"],
    "C08": ["flatmap"],
    "C09": ["filtering"],
    "C10": ["lifting"],
    "C11": ["stateful"],
    "C12": ["control"],
    "C13": ["conv_geometry", "conv_layers"],
    "C14": ["shapes"],
    "C15": ["dense"],
    "C16": ["norm"],
    "C17": ["norm"],
    "C18": ["recurrent"],
    "C19": ["pooling"],
    "C20": ["initial_values"],
    "C21": ["param_trees"],
    "C22": ["vq"],
    "C23": ["rng_scope"],
    "C24": ["nets"],
}


def load(prop):
  for m in MODULES.get(prop, ()):
    importlib.import_module("contracts." + m)
