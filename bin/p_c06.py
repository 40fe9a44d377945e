from optlib import *

def check(c):
    optimizer(c, "degree", "degree", 30000 if THOROUGH else 3500, 2000 if THOROUGH else 200)
