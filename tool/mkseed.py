"""development only: write seeded/<name>/ from textual replacements made (and undone) in /repo"""
import subprocess, os, json
R = '/tmp/u/rg'     # scratch clone, reset to /repo's HEAD
def seed(name, prop, reps, needs, breaks, demo, threads=1):
    d = '/verif/seeded/' + name; os.makedirs(d, exist_ok=True)
    subprocess.run('git -C %s fetch -q origin && git -C %s reset -q --hard origin/HEAD' % (R, R), shell=True, check=True)
    try:
        for file, old, new in reps:
            p = os.path.join(R, file); s = open(p, encoding='latin1', newline='').read(); assert s.count(old) == 1, (name, file, s.count(old), old)
            open(p, 'w', encoding='latin1', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True).stdout; open(d + '/patch.diff', 'wb').write(diff)
    finally:
        subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.py', 'w').write(demo + '\nimport sys,os\nsys.stdout.flush(); os._exit(0)\n')
    s = open('/verif/tool/demo.sh').read()
    if threads != 1: s = s.replace('DEMO_THREADS:-1', 'DEMO_THREADS:-%d' % threads)
    open(d + '/demo.sh', 'w').write(s)
