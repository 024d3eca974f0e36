"""Bounded model checking of the C sources with CBMC, and replay of its counterexamples with the compiled code."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from . import core, csym

CHECKS = ['--bounds-check', '--pointer-check', '--signed-overflow-check', '--div-by-zero-check',
          '--undefined-shift-check', '--pointer-primitive-check', '--no-malloc-may-fail']


class Result(object):
    def __init__(self):
        self.status = 'unknown'       # proved | refuted | unknown
        self.failed = []
        self.inputs = {}
        self.props = 0
        self.wall = 0.0
        self.detail = ''
        self.vccs = 0


def check(src, defs=None, unwind=20, extra=(), timeout=200, leak=True, mem_gb=6):
    """src: text of the harness (includes the sources of /repo)"""
    r = Result()
    d = tempfile.mkdtemp(prefix='verif-cbmc-')
    t0 = time.time()
    try:
        f = os.path.join(d, 'harness.c')
        with open(f, 'w') as g:
            g.write(src)
        cmd = ['cbmc', f, '-I' + csym.SRC, '--unwind', str(unwind), '--unwinding-assertions', '--slice-formula', '--json-ui', '--trace',
               '--verbosity', '8'] + CHECKS + (['--memory-leak-check'] if leak else []) + list(extra)
        for k, v in (defs or {}).items():
            cmd.append('-D%s=%s' % (k, v))
        # the output goes to files: large traces must not fill a pipe
        with open(os.path.join(d, 'out'), 'w') as o:
            p = subprocess.Popen(['bash', '-c', 'ulimit -v %d; exec "$@"' % (mem_gb << 20), 'x'] + cmd, stdout=o, stderr=subprocess.STDOUT)
            try:
                p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                r.detail = 'cbmc: time limit %ds' % timeout
                return r
            except BaseException:
                p.kill()
                p.wait()
                raise
        txt = open(os.path.join(d, 'out')).read()
        try:
            doc = json.loads(txt)
        except ValueError:
            r.detail = 'cbmc: ' + txt[-600:]
            return r
        msgs = []
        for e in doc:
            if 'messageText' in e:
                msgs.append(e['messageText'])
                m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', e['messageText'])
                if m:
                    r.vccs = int(m.group(1))
            if 'result' in e:
                r.props = len(e['result'])
                bad = [q for q in e['result'] if q['status'] == 'FAILURE']
                unk = [q for q in e['result'] if q['status'] not in ('FAILURE', 'SUCCESS')]
                for q in bad:
                    loc = q.get('sourceLocation', {})
                    r.failed.append((q['property'], '%s (%s:%s %s)' % (q['description'], os.path.basename(loc.get('file', '?')), loc.get('line', '?'),
                                                                       loc.get('function', '?')), trace_inputs(q.get('trace', []))))
                r.status = 'refuted' if bad else ('unknown' if unk else 'proved')
        if r.status == 'unknown':
            r.detail = 'cbmc: ' + ' | '.join(msgs)[-600:]
        return r
    finally:
        r.wall = time.time() - t0
        core.STATS.queries += 1
        core.STATS.solver_s += r.wall
        core.STATS.verdicts[{'proved': 'unsat', 'refuted': 'sat', 'unknown': 'unknown'}[r.status]] += 1
        shutil.rmtree(d, ignore_errors=True)


def trace_inputs(trace):
    out = {}
    for s in trace:
        if s.get('stepType') == 'assignment':
            n = s.get('lhs', '')
            if n.startswith('in_') and 'data' in s.get('value', {}):
                v = s['value']['data']
                m = re.match(r'^-?\d+', v)
                if m:
                    out[n] = int(m.group(0))
    return out


def sanitized(src, defs, timeout=120):
    """compile the harness with the sanitizers and run it; (failed, text)"""
    d = tempfile.mkdtemp(prefix='verif-asan-')
    try:
        f = os.path.join(d, 'harness.c')
        with open(f, 'w') as g:
            g.write(src)
        exe = os.path.join(d, 'a.out')
        cmd = ['gcc', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DREPLAY', '-I' + csym.SRC, f, '-o', exe, '-lm']
        for k, v in (defs or {}).items():
            cmd.append('-D%s=%s' % (k, v))
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return None, 'does not compile: ' + p.stdout[-400:]
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
        try:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env, cwd=d)
        except subprocess.TimeoutExpired:
            return True, 'does not terminate within %ds' % timeout
        if p.returncode:
            m = re.search(r'(ERROR: [^\n]*|runtime error: [^\n]*|LEAK[^\n]*|WRONG[^\n]*)', p.stdout)
            return True, (m.group(1) if m else p.stdout[-300:])
        return False, p.stdout[-200:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
