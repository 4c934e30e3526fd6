#!/usr/bin/env python3
"""Build and run one check:   run.py check C08 [quick|thorough]     run.py replay FILE     run.py setup

Every run copies the library sources from /repo's working tree, regenerates the settings headers,
compiles the library and the property harness, and runs it. Nothing is reused between runs."""
import sys, os, re, json, shutil, subprocess, glob, time, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('LMP_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS, SCALE

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise SystemExit_(f"build command failed: {' '.join(cmd)}\n{r.stdout[-6000:]}")
    return r.stdout

class SystemExit_(Exception): pass

def pkg(*names):
    c = subprocess.run(['pkg-config', '--cflags', *names], capture_output=True, text=True)
    l = subprocess.run(['pkg-config', '--libs', *names], capture_output=True, text=True)
    if c.returncode or l.returncode: raise SystemExit_('pkg-config failed: ' + c.stderr + l.stderr)
    return c.stdout.split(), l.stdout.split()

CONFIG_H = '''#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#define GETTEXT_PACKAGE "libmypaint"
#define LIBMYPAINT_MAJOR_VERSION 2
#define PACKAGE "libmypaint"
#define PACKAGE_NAME "libmypaint"
#define PACKAGE_VERSION "2"
#define VERSION "2"
%s
#endif
'''

def copy_sources(dst, glibmode):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for pat in ('*.c', '*.h', 'brushsettings.json', 'generate.py'):
        for f in glob.glob(os.path.join(REPO, pat)):
            shutil.copy2(f, dst)
    for d in ('glib', 'gegl', 'fastapprox'):
        if os.path.isdir(os.path.join(REPO, d)):
            shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d))
    for g in ('mypaint-brush-settings-gen.h', 'brushsettings-gen.h', 'config.h'):
        p = os.path.join(dst, g)
        if os.path.exists(p): os.remove(p)
    sh(['python3', 'generate.py', 'mypaint-brush-settings-gen.h', 'brushsettings-gen.h'], cwd=dst)
    with open(os.path.join(dst, 'config.h'), 'w') as f:
        f.write(CONFIG_H % ('#define MYPAINT_CONFIG_USE_GLIB 1' if glibmode else '#define MYPAINT_CONFIG_USE_GLIB 0'))

def build(cid, spec, out):
    var = VARIANTS[spec['variant']]
    src = os.path.join(out, 'src')
    copy_sources(src, var.get('glib', False))
    cf, lf = pkg('json-c', *var.get('pkgs', []))
    inc = ['-I' + src, '-I' + os.path.join(src, 'fastapprox')]
    libsrc = sorted(glob.glob(os.path.join(src, '*.c')))
    if var.get('gegl'):
        libsrc += sorted(glob.glob(os.path.join(src, 'gegl', '*.c')))
        libsrc += sorted(glob.glob(os.path.join(src, 'glib', '*gegl*.c')))
        inc += ['-I' + os.path.join(src, 'gegl')]
    # enum constant of every entry of the definition file, for the metadata check
    d = json.load(open(os.path.join(src, 'brushsettings.json')))
    with open(os.path.join(out, 'enum_list.h'), 'w') as f:
        for what, pre, names in (('INPUT', 'INPUT', [i['id'] for i in d['inputs']]), ('SETTING', 'SETTING', [i['internal_name'] for i in d['settings']]), ('STATE', 'STATE', d['states'])):
            f.write('static const struct { const char *name; int id; } ENUM_%sS[] = {\n' % what + ''.join('  {"%s", MYPAINT_BRUSH_%s_%s},\n' % (n, pre, n.upper()) for n in names) + '};\n')
    inc.append('-I' + out)
    objs, jobs = [], []
    for c in libsrc:
        o = os.path.join(out, os.path.basename(c)[:-2] + '.o'); objs.append(o)
        jobs.append([var['cc'], '-std=gnu99', '-w', *var['cflags'], *inc, *cf, '-c', c, '-o', o])
    for h in spec['harness']:
        o = os.path.join(out, h.replace('/', '_')[:-3] + '_h.o'); objs.append(o)
        defs = ['-DREPO_JSON="%s/brushsettings.json"' % src, '-DBRUSH_DIR="%s/tests/brushes"' % REPO]
        jobs.append([var['cxx'], '-std=gnu++17', '-w', *var['cxxflags'], *inc, '-I' + os.path.join(HERE, 'pbt'), *cf, *defs, *spec.get('cxxflags', []), '-c', os.path.join(HERE, 'pbt', h), '-o', o])
    # slowest first
    jobs.sort(key=lambda j: 0 if j[0] == var['cxx'] else 1)
    with ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        list(ex.map(sh, jobs))
    exe = os.path.join(out, cid)
    sh([var['cxx'], *var['cxxflags'], '-o', exe, *objs, *lf, *spec.get('libs', []), '-lm', '-ldl', '-lpthread'])
    return exe

def env_for(var):
    e = dict(os.environ)
    e.update(ASAN_OPTIONS='abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=32:symbolize=1',
             UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=67', LC_ALL='C',
             GEGL_SWAP='RAM', GEGL_THREADS='2', GEGL_USE_OPENCL='no', G_DEBUG='')
    e.update(var.get('env', {}))
    return e

def main():
    cmd = sys.argv[1]
    if cmd == 'setup':
        # smoke build of every variant, nothing is kept: checks always rebuild from /repo
        for cid in ('C03',):
            if cid in CHECKS:
                d = os.path.join(HERE, 'build', 'setup'); exe = build(cid, CHECKS[cid], d); shutil.rmtree(d, ignore_errors=True)
        return 0
    if cmd == 'replay':
        path = os.path.abspath(sys.argv[2])
        cid = re.search(r'^property=(\S+)', open(path).read(), re.M).group(1)
    else:
        cid = sys.argv[2]
    spec = CHECKS[cid]
    tier = sys.argv[3] if len(sys.argv) > 3 and cmd == 'check' else os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    seed = str(int(seed) if re.fullmatch(r'\d+', seed) else abs(hash(seed)) % 10**9)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    out = os.path.join(HERE, 'build', cid + os.environ.get('VERIF_BUILD_TAG', ''))
    t0 = time.time()
    try:
        exe = build(cid, spec, out)
    except SystemExit_ as e:
        print(e); return 2
    var = VARIANTS[spec['variant']]
    if cmd == 'replay':
        return subprocess.run([exe, '--replay', path, '--known', os.path.join(HERE, 'known_findings.txt')], env=env_for(var), cwd=out).returncode
    workers = spec.get('workers') or min(8, os.cpu_count() or 4)
    deadline = spec.get('deadline', {}).get(tier) or (420 if tier == 'quick' else 3600)
    args = [exe, '--tier', tier, '--seed', seed, '--workers', str(workers), '--deadline', str(deadline), '--scale', str(SCALE.get(cid, 1)),
            '--evidence', os.path.join(HERE, 'evidence', cid + '.json'), '--replays', os.path.join(HERE, 'replays'),
            '--known', os.path.join(HERE, 'known_findings.txt')] + sys.argv[4:]
    r = subprocess.run(args, env=env_for(var), cwd=out).returncode
    shutil.rmtree(out, ignore_errors=True)
    return r

if __name__ == '__main__':
    sys.exit(main())
