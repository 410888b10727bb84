#!/usr/bin/env python3
"""Builds the program under test from /repo's working tree into the model checker and runs one check.
   check.py <property> [--tier quick|thorough] [--replay FILE] [--only GLOB] [--list]"""
import sys, os, subprocess, hashlib, glob, shutil, tempfile, concurrent.futures, time, fcntl
HERE = os.path.dirname(os.path.abspath(__file__)); MC = os.path.join(HERE, 'mc'); REPO = os.environ.get('MC_REPO', '/repo')
CACHE = os.path.join(HERE, '.cache')
CXX = 'g++'

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def digest(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:32]
def contents(files): return b''.join(f.encode() + b'\0' + open(f, 'rb').read() + b'\0' for f in sorted(files))

class Build:
    def __init__(self, tmp): self.tmp = tmp; self.pool = concurrent.futures.ThreadPoolExecutor(8); self.fail = []
    def obj(self, src, flags, dep, optional=False):
        key = digest(open(src, 'rb').read(), ' '.join(flags), dep, src)
        out = os.path.join(CACHE, key + '.o')
        def job():
            if os.path.exists(out): os.utime(out); return out
            t = os.path.join(self.tmp, key + '.o')
            r = sh([CXX] + flags + ['-c', src, '-o', t])
            if r.returncode:
                if optional: sys.stderr.write('note: %s does not compile against this tree: the checks that use it cannot run\n%s\n' % (src, r.stdout[-1500:])); return None
                raise RuntimeError('compiling %s failed:\n%s' % (src, r.stdout[-4000:]))
            t2 = out + '.%d' % os.getpid(); shutil.copy(t, t2); os.replace(t2, out); return out
        return self.pool.submit(job)

def prune_cache():
    fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
    fs = [(os.path.getmtime(f), f) for f in fs if os.path.exists(f)]
    if len(fs) > 900:
        for _, f in sorted(fs)[:len(fs) - 600]:
            try: os.remove(f)
            except OSError: pass

TOOLS = {'PartitionColumns': [], 'PartitionMetis': ['-lmetis'], 'RefineSerialMesh': [], 'SerialMeshInfo': [], 'ParallelMeshInfo': []}

def build(tmp, tools, kinds=('plain',)):
    os.makedirs(CACHE, exist_ok=True)
    b = Build(tmp)
    hdrs = glob.glob(MC + '/*.hh') + glob.glob(MC + '/fake/*.h')
    mdep = contents(hdrs)
    # the model checker itself (not dependent on /repo)
    mflags = ['-std=c++17', '-O2', '-g1', '-Wall', '-Wno-misleading-indentation', '-Wno-format-truncation', '-I' + MC + '/fake', '-I' + MC]
    mobjs = [b.obj(f, mflags, mdep) for f in sorted(glob.glob(MC + '/*.cc'))]
    wrap = ['-Wl,--wrap=memcpy', '-Wl,--wrap=memmove', '-Wl,--wrap=memset']
    LIBS = ['-lstdc++', '-lm', '-lc', '-lgcc_s', '-lgcc']
    rdep = contents(glob.glob(REPO + '/src/*.hh') + glob.glob(REPO + '/src/*.h') + glob.glob(MC + '/fake/*.h') + [MC + '/api.hh'])
    common = ['-std=c++11', '-O1', '-g1', '-w', '-fPIC', '-fno-gnu-unique', '-fno-builtin-printf', '-fno-builtin-puts', '-fno-builtin-putchar', '-U_FORTIFY_SOURCE', '-include', 'cstdint', '-include', 'cstring', '-include', 'cstdlib', '-include', 'cmath', '-I' + MC + '/fake', '-I' + REPO + '/src']
    # builds for the memory monitor: all accesses of program and tools are seen, undefined operations are reported,
    # automatic variables start as a pattern (m) or as zeros (z)
    mem = ['-fsanitize=thread,shift,integer-divide-by-zero,unreachable,vla-bound,return,signed-integer-overflow,bounds,bool,enum,float-cast-overflow', '-fstack-protector-all', '-fno-builtin-memcmp']
    memwrap = ['-Wl,--wrap=fread', '-Wl,--wrap=fwrite', '-Wl,--wrap=memcmp']
    sources = sorted(glob.glob(REPO + '/src/*.cc')); shims = sorted(glob.glob(MC + '/shim/*.cc'))
    def program(extra):
        pflags = common + ['-fopenmp', '-fsanitize=thread', '-DASSERT_ON=%d' % (0 if extra else 1), '-DUSE_PETSC=1'] + extra
        po = [b.obj(f, pflags + (['-Dmain=tycho2_main'] if os.path.basename(f) == 'Main.cc' else []), rdep) for f in sources]
        return po, [b.obj(f, pflags, rdep, optional=os.path.basename(f) not in ('core.cc', 'main.cc')) for f in shims]
    def toolset(extra):
        udep = rdep + contents(glob.glob(REPO + '/util/*.hh') + glob.glob(REPO + '/util/*.h')); uflags = common + extra
        ser = uflags + ['-DPARALLEL_MESH_READ_SERIAL_ONLY']
        base = [b.obj(REPO + '/src/SerialMesh.cc', ser, udep), b.obj(REPO + '/src/ParallelMesh.cc', ser, udep)]
        core = b.obj(MC + '/shim/core.cc', uflags, udep)
        par = [b.obj(REPO + '/src/' + f + '.cc', uflags, udep) for f in ('SerialMesh', 'ParallelMesh', 'Comm', 'Assert')]
        return {t: [b.obj(REPO + '/util/%s.cc' % t, (uflags if t == 'ParallelMeshInfo' else ser) + ['-Dmain=tool_main'], udep)] + (par if t == 'ParallelMeshInfo' else base) + [core] for t in tools}
    variants = []                    # (suffix of the libraries, program, shims, tools, more objects, more link flags)
    if 'plain' in kinds: variants.append(('',) + program([]) + (toolset([]), [], []))
    if 'mem' in kinds:
        for sfx, init in (('_m', 'pattern'), ('_z', 'zero')):
            fl = mem + ['-ftrivial-auto-var-init=' + init]
            variants.append((sfx,) + program(fl) + (toolset(fl), [b.obj(MC + '/memshim/memio.cc', ['-std=c++11', '-O1', '-g1', '-fPIC', '-U_FORTIFY_SOURCE'], '')], memwrap))
    res = lambda l: [x for x in (f.result() for f in l) if x]
    mo = res(mobjs)
    def link(cmd):
        r = sh(cmd)
        if r.returncode: raise RuntimeError('link failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    jobs = [b.pool.submit(link, [CXX, '-rdynamic', '-o', tmp + '/mc'] + mo + ['-ldl', '-lpthread'])]
    for sfx, pobjs, sobjs, tobjs, more, mwrap in variants:
        po, so, mr = res(pobjs), res(sobjs), res(more)
        ok = {os.path.basename(s) for s, f in zip(shims, sobjs) if f.result()}
        swrap = ['-Wl,--wrap=' + y for x, y in (('source.cc', '_ZN7Problem9getSourceER7PsiData'), ('traverse.cc', '_ZN14GraphTraverser8traverseEmR12TraverseData'), ('schedule.cc', '_ZN13SweepScheduleC1ERKSt6vectorImSaImEEmmm')) if x in ok]
        jobs.append(b.pool.submit(link, [CXX, '-shared', '-nodefaultlibs', '-Wl,-Bsymbolic', '-Wl,-z,now', '-o', tmp + '/tycho%s_0.so' % sfx] + wrap + swrap + mwrap + po + so + mr + LIBS))
        for t in tools: jobs.append(b.pool.submit(link, [CXX, '-shared', '-nodefaultlibs', '-Wl,-Bsymbolic', '-o', tmp + '/' + t + sfx + '.so'] + wrap + mwrap + res(tobjs[t]) + mr + TOOLS[t] + LIBS))
    for j in jobs: j.result()
    for v in variants:
        for r in range(1, 8):
            shutil.copy(tmp + '/tycho%s_0.so' % v[0], tmp + '/tycho%s_%d.so' % (v[0], r))
            if 'ParallelMeshInfo' in tools: shutil.copy(tmp + '/ParallelMeshInfo%s.so' % v[0], tmp + '/ParallelMeshInfo_%d%s.so' % (r, v[0]))

MEM = ('C23', 'C24')
NEED = {'C09': ['PartitionColumns'], 'C11': ['PartitionColumns', 'PartitionMetis', 'RefineSerialMesh', 'SerialMeshInfo', 'ParallelMeshInfo'], 'C17': ['RefineSerialMesh', 'PartitionColumns'], 'C18': ['PartitionColumns', 'PartitionMetis'], 'C26': ['SerialMeshInfo', 'ParallelMeshInfo']}

def main():
    a = sys.argv[1:]; prop = None; tier = os.environ.get('VERIF_TIER', 'quick'); extra = []
    i = 0
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 2
        elif a[i] in ('--replay', '--only', '--limit'): extra += [a[i], os.path.abspath(a[i + 1]) if a[i] == '--replay' else a[i + 1]]; i += 2
        elif a[i] == '--list': extra += ['--list']; i += 1
        else: prop = a[i]; i += 1
    tmp = tempfile.mkdtemp(prefix='mc_')
    try:
        t0 = time.time()
        try: build(tmp, list(TOOLS) if prop in ('all', 'C23') else NEED.get(prop, []), ('plain', 'mem') if prop == 'all' else ('mem',) if prop in MEM else ('plain',))
        except RuntimeError as e:
            sys.stderr.write(str(e) + '\n'); return 2
        if prop == 'all': prune_cache(); return 0
        print('built from %s in %.1f s' % (REPO, time.time() - t0), flush=True)
        ev = os.path.join(HERE, 'evidence'); rp = os.path.join(ev, 'replays'); os.makedirs(rp, exist_ok=True)
        if not any(x in extra for x in ('--replay', '--list')):
            for f in glob.glob(rp + '/%s_*.replay' % prop): os.remove(f)
        os.makedirs(tmp + '/scratch')
        cmd = [tmp + '/mc', prop, '--tier', tier, '--build', tmp, '--scratch', tmp + '/scratch', '--known', HERE + '/known_findings.txt', '--replays', rp] + extra
        if not any(x in extra for x in ('--replay', '--list', '--only')): cmd += ['--evidence', ev + '/%s.json' % prop]
        return subprocess.run(cmd, cwd=tmp + '/scratch').returncode
    finally:
        if os.environ.get('MC_KEEP'): print('kept', tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)
        try: prune_cache()
        except OSError: pass
sys.exit(main())
