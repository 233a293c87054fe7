"""Configure the project with the real build's options, parse the requested translation units with
the libTooling extractor and cache each unit's IR by the content it depends on."""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CLAZY_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
CACHE = os.path.join(BUILD, 'cache')
JOBS = 8


class AnalysisBroken(Exception):
    """The analysis could not be carried out (error exit, neither pass nor violation)."""


def _env():
    e = dict(os.environ)
    e['PATH'] = '/usr/lib/llvm-20/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e['LLVM_ROOT'] = '/usr/lib/llvm-20'
    return e


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def headers_digest():
    h = hashlib.sha256()
    hs = sorted(glob.glob(REPO + '/src/**/*.h', recursive=True))
    hs += sorted(glob.glob(REPO + '/*.in')) + [REPO + '/checks.json']
    for p in hs:
        h.update(p[len(REPO):].encode() + b'\0')
        h.update(_read(p))
    return h.hexdigest()


def configure(scratch):
    bd = os.path.join(scratch, 'b')
    r = subprocess.run(['cmake', '-S', REPO, '-B', bd, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Release',
                        '-DCMAKE_C_COMPILER=/usr/bin/clang-20', '-DCMAKE_CXX_COMPILER=/usr/bin/clang++-20',
                        '-DLLVM_ROOT=/usr/lib/llvm-20', '-DCLAZY_BUILD_CLANG_TIDY=ON',
                        '-DTEST_OPTIONS=--jobs=1', '-DGIT_EXECUTABLE=OFF',
                        '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'], env=_env(), capture_output=True, text=True)
    cc = os.path.join(bd, 'compile_commands.json')
    if r.returncode or not os.path.exists(cc):
        raise AnalysisBroken('cmake configure failed:\n' + r.stdout[-2000:] + r.stderr[-2000:])
    return bd, json.load(open(cc))


def extract_all(only=None):
    """Returns list of (source file, path of IR json). `only`: predicate on the path relative to src/."""
    os.makedirs(CACHE, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='clazy-cv-')
    try:
        bd, db = configure(scratch)
        plugin_pch = os.path.join(bd, 'CMakeFiles/ClazyPlugin.dir/cmake_pch.hxx.pch')
        want = []
        newdb = []
        tool_d = hashlib.sha256(_read(VERIF + '/tool/extract.cpp')).hexdigest()
        hd = headers_digest()
        for p in glob.glob(bd + '/*.h'):
            hd += hashlib.sha256(_read(p)).hexdigest()
        seen = set()
        for e in db:
            f = os.path.realpath(os.path.join(e['directory'], e['file']))
            if not f.startswith(REPO + '/src/') or f in seen:
                continue
            seen.add(f)
            rel = f[len(REPO) + 5:]
            if only and not only(rel):
                continue
            cmd = e['command']
            if 'ClazyPlugin.dir' not in e['output']:
                # textual include of the precompiled header instead of a second PCH
                toks = cmd.split(' ')
                out = []
                i = 0
                while i < len(toks):
                    if toks[i] == '-Xclang' and i + 3 < len(toks) and toks[i + 1] == '-include-pch':
                        i += 4
                        continue
                    out.append(toks[i])
                    i += 1
                cmd = ' '.join(out)
            e2 = dict(e)
            e2['command'] = cmd
            newdb.append(e2)
            key = hashlib.sha256((tool_d + hd + cmd.replace(scratch, '@').replace(REPO + '/', '@R/').replace('-I' + REPO + ' ', '-I@R ') + rel).encode() + _read(f)).hexdigest()[:40]
            want.append((f, os.path.join(CACHE, key + '.json')))
        missing = [(f, c) for f, c in want if not os.path.exists(c)]
        if missing:
            r = subprocess.run(['bash', VERIF + '/tool/build.sh'], env=_env(), capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken('extractor build failed:\n' + r.stderr[-3000:])
            r = subprocess.run(['ninja', '-C', bd, 'CMakeFiles/ClazyPlugin.dir/cmake_pch.hxx.pch'], env=_env(), capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken('precompiled header build failed:\n' + r.stdout[-3000:])
            dbd = os.path.join(scratch, 'db')
            os.makedirs(dbd)
            json.dump(newdb, open(dbd + '/compile_commands.json', 'w'))
            out = os.path.join(scratch, 'ir')
            os.makedirs(out)
            chunks = [missing[i::JOBS] for i in range(JOBS)]
            procs = []
            for ch in chunks:
                # header functions are de-duplicated per process only; one TU per invocation would
                # repeat them, so give each process its whole chunk but keep them in every file
                if ch:
                    sh = ' && '.join("'%s' '%s' '%s' '%s' '%s'" % (BUILD + '/extract', REPO + '/src', out, dbd, f) for f, _ in ch)
                    procs.append(subprocess.Popen(['bash', '-c', sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
            logs = [p.communicate()[0] for p in procs]
            if any(p.returncode for p in procs):
                raise AnalysisBroken('source does not parse:\n' + '\n'.join(l[-1500:] for l, p in zip(logs, procs) if p.returncode))
            for f, c in missing:
                src = os.path.join(out, f.replace('/', '_') + '.json')
                if not os.path.exists(src):
                    raise AnalysisBroken('no IR produced for ' + f)
                tmp = c + '.%d' % os.getpid()
                shutil.copyfile(src, tmp)
                os.replace(tmp, c)
        _prune({c for _, c in want})
        return want
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _prune(keep):
    fs = glob.glob(CACHE + '/*.json')
    for p in keep:
        try:
            os.utime(p)
        except OSError:
            pass
    if len(fs) > 4000:
        def age(p):
            try:
                return os.path.getmtime(p)
            except OSError:
                return 0
        fs = sorted((p for p in fs if p not in keep), key=age)
        for p in fs[:len(fs) - 2000]:
            try:
                os.unlink(p)
            except OSError:
                pass


if __name__ == '__main__':
    w = extract_all()
    print(len(w), 'units;', sum(os.path.getsize(c) for _, c in w) // 1024, 'KiB IR')
