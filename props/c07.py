"""Addition is grade-wise."""
from .addsub import *
def run(ctx): go(ctx, "add")
