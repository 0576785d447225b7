"""Turn replays that the unchanged tree passes into corpus cases"""
import glob, json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for path in sys.argv[1:] or sorted(glob.glob(here + '/replays/*.json')):
    r = json.load(open(path))
    out = '%s/corpus/%s/%s' % (here, r['property'], os.path.basename(
        path)[len(r['property']) + 1:])
    if os.path.exists(out):
        continue
    p = subprocess.run([here + '/check', r['property'], '--replay', path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(os.path.basename(path), p.returncode)
    if p.returncode == 0:
        os.makedirs(os.path.dirname(out), exist_ok=True)
        with open(out, 'w') as f:
            json.dump({'case': r['case']}, f, sort_keys=True)
            f.write('\n')
