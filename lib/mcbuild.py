"""Builds /repo's current working tree out of tree (with the project's own make
system) and links harnesses against the result.  Keyed by a hash of every source
file, so an edit to /repo is always seen and an unchanged tree is built once."""
import fcntl, hashlib, os, shutil, subprocess, sys, glob, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SKIP = {'obj', 'lib', 'bin', 'testTmp'}
VARIANTS = {
    # name: (CC, CXX, USER_CFLAGS)
    'plain': ('gcc -fcommon', 'g++', '-O2 -g1'),
    'san': ('gcc -fcommon -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined -fno-omit-frame-pointer',
            'g++ -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined -fno-omit-frame-pointer', '-O1 -g1'),
}
CLEANENV = dict(os.environ, LC_ALL='C', HOME='/root')
for k in ('MAKEFLAGS', 'MFLAGS', 'TEST', 'NO_DEPEND', 'DEPEND'):
    CLEANENV.pop(k, None)
if '/usr/sbin' not in CLEANENV.get('PATH', ''):
    CLEANENV['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'


def source_files():
    out = []
    top = os.path.join(REPO, 'src')
    for d, dirs, files in os.walk(top):
        rel = os.path.relpath(d, top)
        dirs[:] = sorted(x for x in dirs if not (x in SKIP and True))
        if rel == 'parsers' and 'include' in dirs:
            dirs.remove('include')
        for f in sorted(files):
            out.append(os.path.join(rel, f))
    return out


def tree_hash(variant):
    h = hashlib.sha256()
    h.update(repr(VARIANTS[variant]).encode())
    h.update(subprocess.run(['gcc', '--version'], capture_output=True).stdout)
    for f in source_files():
        h.update(f.encode() + b'\0')
        p = os.path.join(REPO, 'src', f)
        if os.path.islink(p):
            h.update(os.readlink(p).encode())
        else:
            with open(p, 'rb') as fp:
                h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def build_tree(variant='plain', verbose=False):
    """returns the directory holding include/, lib/<os>/, bin/<os>/ and src/."""
    os.makedirs(BUILD, exist_ok=True)
    hsh = tree_hash(variant)
    root = os.path.join(BUILD, '%s-%s' % (variant, hsh))
    with open(os.path.join(BUILD, 'lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(root, 'complete')):
            os.utime(os.path.join(root, 'complete'))
            return root
        # keep the most recent trees of this variant
        olds = sorted(glob.glob(os.path.join(BUILD, variant + '-*')), key=os.path.getmtime)
        for o in olds[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(root, ignore_errors=True)
        for f in source_files():
            s = os.path.join(REPO, 'src', f)
            d = os.path.join(root, 'src', f)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy2(s, d, follow_symlinks=False)
        cc, cxx, ucf = VARIANTS[variant]
        mk = ['make', '-fMakefile', 'CC=' + cc, 'CXX=' + cxx, 'USER_CFLAGS=' + ucf]
        if variant == 'san':
            # the linker driver is $(LD) = g++ in this make system
            mk.append('LD=' + cxx)
        t0 = time.time()
        log = os.path.join(root, 'build.log')
        env = dict(CLEANENV, ASAN_OPTIONS='detect_leaks=0')
        with open(log, 'w') as lf:
            for a in (['headerinstall'], ['-j8', 'DEPEND=1', 'libinstall'], ['-j8', 'DEPEND=1', 'bininstall']):
                r = subprocess.run(mk + a, cwd=os.path.join(root, 'src'), env=env, stdout=lf, stderr=subprocess.STDOUT)
                if r.returncode:
                    lf.flush()
                    raise BuildError('build of /repo failed, see %s\n%s' % (log, open(log).read()[-3000:]))
        open(os.path.join(root, 'complete'), 'w').write('%.1f\n' % (time.time() - t0))
    return root


LIBS = ['-lzmdpLifeSurvey', '-lzmdpExec', '-lzmdpSearch', '-lzmdpPomdpCore', '-lzmdpPomdpBounds',
        '-lzmdpPomdpParser', '-lzmdpBounds', '-lzmdpRaceTrack', '-lzmdpCommon']


def libdir(root):
    return glob.glob(os.path.join(root, 'lib', '*'))[0]


def bindir(root):
    return glob.glob(os.path.join(root, 'bin', '*'))[0]


def build_harness(name, variant='plain', extra=(), objs=('solverUtils.o', 'TestDriver.o')):
    root = build_tree(variant)
    src = os.path.join(VERIF, 'harness', name + '.cc')
    deps = sorted(glob.glob(os.path.join(VERIF, 'harness', '*.h'))) + [src]
    h = hashlib.sha256()
    for d in deps:
        h.update(open(d, 'rb').read())
    h.update(repr(extra).encode())
    out = os.path.join(root, 'h-%s-%s' % (name, h.hexdigest()[:16]))
    with open(os.path.join(BUILD, 'lock-h-%s-%s' % (name, variant)), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        cc, cxx, ucf = VARIANTS[variant]
        mainobj = glob.glob(os.path.join(root, 'src/main/obj/*'))[0]
        cmd = cxx.split() + ['-std=gnu++17', '-w', '-fpermissive'] + ucf.split() + list(extra) + [
            '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(root, 'include'),
            '-I' + os.path.join(root, 'src/main'), '-I' + os.path.join(root, 'src/parsers'),
            src, '-o', out + '.tmp'] + [os.path.join(mainobj, o) for o in objs] + [
            '-L' + libdir(root), '-Wl,--start-group'] + LIBS + ['-Wl,--end-group', '-lm', '-ldl']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('harness %s does not compile:\n%s\n%s' % (name, ' '.join(cmd), r.stderr[-6000:]))
        os.rename(out + '.tmp', out)
    return out


def build_shim():
    """harness/shim.c as a shared object to be preloaded into the real tool"""
    src = os.path.join(VERIF, 'harness', 'shim.c')
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'shim-%s.so' % hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16])
    with open(os.path.join(BUILD, 'lock-shim'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', src, '-o', out + '.tmp', '-ldl'], capture_output=True, text=True)
            if r.returncode:
                raise BuildError('shim does not compile: ' + r.stderr)
            os.rename(out + '.tmp', out)
    return out
