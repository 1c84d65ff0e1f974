from vt.capgen.check import main as _main


def main(tier):
    return _main('P01', tier)
