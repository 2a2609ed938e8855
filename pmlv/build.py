"""build the library of /repo's current tree, and the replay drivers, in a scratch directory"""
import os, glob, subprocess, shutil, re
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('PMLV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def dirs():
    mk = open(os.path.join(REPO, 'ntl-extras/Makefile')).read()
    m = re.search(r'^DIRS *= *(.*)$', mk, re.M)
    return m.group(1).split()
def prepare(scratch):
    inc = os.path.join(scratch, 'include'); os.makedirs(inc, exist_ok=True)
    for d in dirs():
        for o in glob.glob(os.path.join(REPO, 'ntl-extras', d, '*.orig')):
            h = o[:-5] + '.h'
            if not os.path.exists(h): shutil.copyfile(o, os.path.join(inc, os.path.basename(h)))
def incs(scratch):
    return ['-I' + os.path.join(REPO, 'ntl-extras', d) for d in dirs()] + ['-I' + os.path.join(scratch, 'include')]
def flags(): return ['-w', '-std=c++11', '-O2', '-DNTL_RANGE_CHECK']
def compile_one(src, obj, scratch, extra=()):
    r = subprocess.run(['g++'] + flags() + list(extra) + incs(scratch) + ['-I' + os.path.join(VERIF, 'drivers'), '-c', src, '-o', obj], capture_output=True, text=True, timeout=600)
    return r.returncode, r.stderr
def build_all(scratch, prop, extra=(), log=print):
    """returns (driver path or None, error text)"""
    prepare(scratch)
    od = os.path.join(scratch, 'obj'); os.makedirs(od, exist_ok=True)
    jobs = []
    drv = sorted(glob.glob(os.path.join(VERIF, 'drivers', prop + '*.cpp')))
    for s in drv: jobs.append((s, os.path.join(od, 'drv_' + os.path.basename(s)[:-4] + '.o')))
    lib = []
    for d in dirs():
        for s in sorted(glob.glob(os.path.join(REPO, 'ntl-extras', d, 'src', '*.cpp'))):
            o = os.path.join(od, d + '_' + os.path.basename(s)[:-4] + '.o'); jobs.append((s, o)); lib.append(o)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_one(j[0], j[1], scratch, extra), jobs))
    for (s, o), (rc, err) in zip(jobs, res):
        if rc and not s.startswith(VERIF): return None, 'compilation of %s failed:\n%s' % (s, err[:3000])
    a = os.path.join(scratch, 'libpml.a')
    subprocess.run(['ar', 'rcs', a] + lib, check=True)
    exes = []; errs = []
    for (s, o), (rc, err) in zip(jobs, res):
        if not s.startswith(VERIF): continue
        if rc: errs.append('driver %s does not compile against this tree:\n%s' % (s, err[:2000])); continue
        e = o[:-2] + '.exe'
        r = subprocess.run(['g++', o, '-o', e, a] + list(extra) + ['-lntl', '-lpthread', '-lgmp', '-lm'], capture_output=True, text=True)
        if r.returncode: errs.append('link of %s failed:\n%s' % (s, r.stderr[:2000]))
        else: exes.append(e)
    return exes, '\n'.join(errs)
