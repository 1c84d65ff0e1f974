import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
os.environ['VT_NATIVE'] = '1'
sys.dont_write_bytecode = True
d = json.load(sys.stdin)
h = importlib.import_module(sys.argv[1]).HARNESSES[sys.argv[2]]
bad = 0
out = h.agree(d['case'], d['inputs'])
for cond, label in out:
    if cond is not True and not (cond is not False and str(cond) == 'True'):
        print('FAILS: %s\n  input: %s' % (label, json.dumps(d['inputs'])))
        bad = 1
print('%d assertions, %s' % (len(out), 'violated' if bad else 'all hold'))
sys.exit(bad)
