"""
Runs the check of each planted bug's property against a scratch copy of /repo
with the bug: run_seeded.py [-j N] [-t tier] [id ..]. Prints a line for each,
'caught', 'MISSED', or what went wrong. Not a check itself.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
parser = argparse.ArgumentParser()
parser.add_argument('-j', type=int, default=4)
parser.add_argument('-t', default='quick')
parser.add_argument('ids', nargs='*')
args = parser.parse_args()
seeded = os.path.join(top, 'seeded')


def run(name):
    prop = json.load(open(os.path.join(seeded, name, 'meta.json')))['property']
    scratch = tempfile.mkdtemp(prefix='seeded-')
    try:
        repo = os.path.join(scratch, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        ret = subprocess.run(['git', '-C', repo, 'apply', os.path.join(seeded,
            name, 'patch.diff')], capture_output=True, text=True)
        if ret.returncode:
            return name, prop, 'does not apply: ' + ret.stderr.strip()
        demo = subprocess.run(['bash', os.path.join(seeded, name,
            'demo.sh')], cwd=repo, capture_output=True)
        ret = subprocess.run([os.path.join(top, 'run.sh'), prop, args.t,
            '--workers', '2'], env=dict(os.environ, VERIF_REPO=repo),
            capture_output=True, text=True)
        line = [l for l in ret.stdout.splitlines()
            if l.startswith('VIOLATION property=%s ' % prop)]
        caught = ret.returncode == 1 and len(line) > 0
        return name, prop, ('caught' if caught else 'MISSED (rc %d)'
            % ret.returncode) + ('' if demo.returncode else
            ', but the demonstration passes')
    finally:
        shutil.rmtree(scratch)


ids = args.ids or sorted(os.listdir(seeded))
with ThreadPoolExecutor(args.j) as pool:
    for res in pool.map(run, ids):
        print('%-22s %s %s' % res, flush=True)
