from vt.capgen.check import main as _main, error_variants


def main(tier):
    k = 2 if tier == 'thorough' else 1
    return _main('P05', tier, variants=error_variants(k), bounds=['at most %d scheme error(s) per history, any scheme call, any nonzero code' % k])
