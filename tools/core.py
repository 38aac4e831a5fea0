"""Building the harness, running histories on the real code, checking the recordings with TLC."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
WORK = os.path.join(VERIF, 'work')
EVID = os.path.join(VERIF, 'evidence')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = '1.99.0'
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def build(crate=HARNESS, name='glicol-harness'):
    """the harnesses share one target directory"""
    e = env()
    e['CARGO_TARGET_DIR'] = os.path.join(HARNESS, 'target')
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=crate, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError('harness build failed:\n' + r.stdout[-4000:])
    return os.path.join(HARNESS, 'target', 'debug', name)


def build_web():
    return build(os.path.join(VERIF, 'web'), 'glicol-web-harness')


def work_dir(name):
    d = os.path.join(WORK, '%s-%d' % (name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


def run_harness(binary, cmd, items, wd, tag, timeout=600):
    """items: dicts with 'id'.  Result: dict id -> record.  A history on which the process dies is recorded so."""
    res = {}

    def once(batch, name):
        """(what is left, how it ended) after one run"""
        fin, fout = os.path.join(wd, name + '.in'), os.path.join(wd, name + '.out')
        with open(fin, 'w') as f:
            for it in batch:
                f.write(json.dumps(it) + '\n')
        if os.path.exists(fout):
            os.remove(fout)
        try:
            r = subprocess.run([binary, cmd, fin, fout], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                               timeout=timeout)
            code, err = r.returncode, r.stderr[-500:]
        except subprocess.TimeoutExpired:
            code, err = -99, 'timeout'
        if os.path.exists(fout):
            for line in open(fout):
                try:
                    rec = json.loads(line)
                except ValueError:
                    continue
                res[rec['id']] = rec
        left = [it for it in batch if it['id'] not in res]
        if code == 0 and left:
            raise ToolError('harness lost histories: ' + err)
        if code == 2 or code not in (0, 3) and 'harness:' in err:
            raise ToolError('harness: ' + err)
        return left, code, err

    # a history that does not return ends the run with code 3; any other end is the death of the process
    todo, code, err = once(items, tag)
    rounds = 0
    while todo and code == 3 and rounds < 4:
        rounds += 1
        todo, code, err = once(todo, tag)
    if code == 3:
        todo = []           # enough of them
    # look for the histories on which it dies, in ever smaller groups
    groups, dead, runs = [todo] if todo else [], 0, 0
    while groups and dead < 5 and runs < 200:
        g = groups.pop()
        if len(g) == 1:
            left, code, err = once(g, tag)
            runs += 1
            if left:
                it = g[0]
                res[it['id']] = {'id': it['id'], 'n': it.get('n', 0), 'sr': it.get('sr', 0), 'ch': 1, 'dest': 0, 'input': 1,
                                 'ev': [{'op': 'hang', 'panic': 'process died (%d) %s' % (code, err)}]}
                dead += 1
            continue
        for part in (g[len(g) // 2:], g[:len(g) // 2]):
            left, code, err = once(part, tag)
            runs += 1
            if left:
                groups.append(left)
    return res


def run_pages(items, wd, tag):
    """histories of the web pages under node; result: dict id -> record"""
    fin, fout = os.path.join(wd, tag + '.in'), os.path.join(wd, tag + '.out')
    with open(fin, 'w') as f:
        for it in items:
            f.write(json.dumps(it) + '\n')
    r = subprocess.run(['node', '--no-warnings', '--experimental-vm-modules', os.path.join(VERIF, 'page', 'page.mjs'), '/repo/', fin, fout],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    res = {}
    if os.path.exists(fout):
        for line in open(fout):
            rec = json.loads(line)
            res[rec['id']] = rec
    if r.returncode != 0 or len(res) != len(items):
        raise ToolError('page harness (code %d, %d of %d): %s' % (r.returncode, len(res), len(items), r.stdout[-2000:]))
    return res


TLC_STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def tlc(module, cfg, wd, envv=None, workers=8, timeout=800, args=(), heap='6g'):
    """Runs TLC; result dict(out, code, states, distinct)."""
    meta = os.path.join(wd, 'states-' + os.path.basename(cfg))
    e = env()
    e.update(envv or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JARS, 'tlc2.TLC', '-metadir', meta,
           '-workers', str(workers), '-noGenerateSpecTE', '-config', os.path.join(SPEC, cfg)] + list(args) + \
          [os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError('TLC timed out on %s: %s' % (cfg, (x.stdout or b'')[-1000:]))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = TLC_STATS.search(r.stdout)
    return dict(out=r.stdout, code=r.returncode, states=int(m.group(1)) if m else 0,
                distinct=int(m.group(2)) if m else 0)


VERDICT = re.compile(r'^"VERDICT (\S+) (OK|BAD|SKIP)(.*)"$', re.M)


def validate(traces, header, wd, tag, module='Trace', cfg='Trace.cfg', chunk=4000, extra_env=None):
    """Checks recorded histories against a trace specification.
    Result: (verdicts id -> (kind, text), states, transitions)."""
    verdicts, states, trans = {}, 0, 0
    traces = list(traces)
    for i in range(0, len(traces), chunk):
        part = traces[i:i + chunk]
        f = os.path.join(wd, '%s-%d.ndjson' % (tag, i))
        with open(f, 'w') as o:
            o.write(json.dumps(header) + '\n')
            for t in part:
                o.write(json.dumps(t) + '\n')
        ev = {'TRACE_FILE': f}
        ev.update(extra_env or {})
        r = tlc(module, cfg, wd, ev)
        got = {m.group(1): (m.group(2), m.group(3).strip()) for m in VERDICT.finditer(r['out'])}
        if r['code'] != 0 or len(got) != len(part):
            raise ToolError('TLC failed on %s (code %d, %d of %d verdicts):\n%s' %
                            (f, r['code'], len(got), len(part), r['out'][-3000:]))
        os.remove(f)
        verdicts.update(got)
        states += r['distinct']
        trans += r['states']
    return verdicts, states, trans
