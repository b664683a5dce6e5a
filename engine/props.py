"""Harness, rule and expected number of obligations of each property (texts: tools/table.py)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from table import TABLE

# about half of what was confirmed by hand: a check that finds fewer obligations has lost its subject
MIN = {"C01": 129, "C02": 326, "C03": 493, "C04": 233, "C05": 15, "C06": 1044, "C07": 35, "C08": 15, "C09": 13, "C10": 13, "C11": 30, "C12": 5, "C13": 29, "C14": 298, "C15": 375, "C16": 347, "C17": 37, "C18": 133, "C19": 762, "C20": 46, "C21": 97, "C22": 92, "C23": 242, "C24": 80, "C25": 62, "C26": 30, "C27": 60, "C28": 417, "C29": 154, "C30": 6, "C31": 35, "C32": 83, "C33": 138, "C34": 703, "C35": 243, "C36": 481, "C37": 255, "C38": 46, "C39": 4, "C40": 729, "C41": 33, "C42": 14, "C43": 86, "C44": 600}
PROPS = {p["id"]: dict(harness=p["harness"], rule=p["rule"], min=MIN.get(p["id"], 1), level=p["level"]) for p in TABLE}
PROPS["C35"]["witness"] = True
