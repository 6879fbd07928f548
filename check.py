#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree.  See DESIGN.md, "The checks".

exit 0: every obligation of the property's cone is discharged (or what is outside the verifier's reach was searched,
        within the stated bound, without finding anything); exit 1 with a VIOLATION line otherwise."""
import sys, os, re, json, subprocess, time, shutil, tempfile, threading, hashlib, signal
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(V, 'target')
ENV = dict(os.environ, RUST_MIN_STACK='2000000000', CARGO_NET_OFFLINE='true')
T0 = time.time()
LIB = ['vp', 'spec', 'data', 'ucd', 'evals', 'walks', 'hash', 'tabproof', 'lem', 'chf', 'dfacts', 'str', 'canary']
PURE = ['vp', 'spec', 'data', 'walks', 'lem', 'chf', 'dfacts', 'str']          # the theory: nothing of /repo in it
EVALS = ['ccc', 'comp', 'dec', 'kec', 'ld', 'lk', 'sec', 'var', 'yes', 'yesk']  # the theory's facts about the Unicode data, by evaluation
HEAD = '#![allow(unused_imports, dead_code, nonstandard_style, unused_variables, unused_mut, unused_parens, unused_braces, unreachable_code, unused_attributes)]'

# ---------------------------------------------------------------------------------------------- cones
CCC = [r'lookups::canonical_combining_class$', r'lookups::u8_lookup', r'perfect_hash::', r'hash::', r'tabproof::(tab|in|sl)_ccc', r'tevals::ccc']
MARK = [r'lookups::is_combining_mark$', r'lookups::bool_lookup', r'perfect_hash::', r'hash::', r'tabproof::(tab|in|sl)_mark', r'tevals::mark']
PAIR = [r'lookups::pair_lookup', r'perfect_hash::', r'hash::']
DEC = PAIR + [r'lookups::(canonical|compatibility)_fully', r'tabproof::(tab|raw|same)_(canon|compat)', r'tevals::(canon|compat)', r'normalize::decompose__', r'normalize::decompose_(canonical|compatible)$', r'normalize::(is_hangul_syllable|decompose_hangul)$', r'normalize::~']
COMP = [r'lookups::composition_table$', r'tables::composition_table_astral$', r'perfect_hash::', r'hash::', r'lookups::pair_lookup', r'tabproof::tab_comp', r'tevals::comp[AB]', r'normalize::compose', r'normalize::~', r'tables::~']
CJK = PAIR + [r'lookups::cjk', r'tabproof::(tab|raw|same)_cjk', r'tevals::cjk', r'normalize::decompose_cjk', r'normalize::~']
TRAIL = [r'lookups::stream_safe_trailing', r'lookups::u8_lookup', r'perfect_hash::', r'hash::', r'tabproof::(tab_trail|lead_eq|trail_eq|counts)', r'tevals::trail', r'tables::stream_safe_leading', r'lookups::(canonical|compatibility)_fully', r'normalize::hangul_decomposition_length', r'normalize::is_hangul_syllable', r'tables::~']
DECO = [r'decompose::(?!.*(size_hint|Display|Fused))']
RECO = [r'recompose::(?!.*(size_hint|Display|Fused))']
REPL = [r'replace::(?!.*(size_hint|Display))']
STRM = [r'stream_safe::(?!.*size_hint)']
QC = [r'tables::qc_', r'tables::~']
NFDc = DECO + DEC + CCC
NFCc = RECO + COMP + NFDc
QUICK = [r'quick_check::.*quick(_check__.*)?$', r'quick_check::~']
EXACT = [r'quick_check::is_nf(c|d|kc|kd)$']
SSEX = [r'quick_check::is_nf.d?_?stream_safe$', r'quick_check::is_nf[cd]_stream_safe$']
LIBF = [r'lib::']
ALL = [r'.*']
# id -> what its own contracts are (a failed obligation there is a violation), and what else its proof rests on
# (a failed obligation there leaves the property undecided: the bounded search decides)
P = {
 'C01': (NFDc, LIBF), 'C02': (NFCc, LIBF),
 'C03': ([], NFCc + LIBF), 'C04': (QUICK + QC, CCC + TRAIL + STRM), 'C05': (EXACT, QUICK + QC + NFCc + CCC + LIBF),
 'C06': (STRM + TRAIL + CCC, LIBF), 'C07': (SSEX + [r'quick_check::.*stream_safe_quick', r'quick_check::~'], QC + NFCc + STRM + TRAIL + LIBF + QUICK),
 'C08': ([], NFCc + STRM + TRAIL + LIBF),
 'C09': (CCC + MARK + [r'lookups::~', r'tabproof::version'], []), 'C10': (DEC + [r'lookups::~', r'tabproof::version'], []), 'C11': (COMP + [r'lookups::~', r'tabproof::version'], []),
 'C12': ([r'tables::is_public_assigned$', r'tabproof::version'], []), 'C13': (REPL + CJK, LIBF),
 'C14': ([r'.*::lazy::'], NFCc + STRM + REPL + [r'.*::both::']), 'C15': ([r'.*size_hint', r'.*Fused', r'decompose::.*(next|new_)', r'recompose::.*(next|new_)'], NFCc + REPL + STRM),
 'C16': (LIBF + [r'.*::new(_canonical|_compatible|_cjk_compat_variants)?$', r'quick_check::is_'], NFCc + STRM + REPL + CJK + QUICK),
 'C17': ([r'.*Display', r'.*::same::clone'], [r'.*Clone::vp_clone'] + NFCc + REPL + CJK), 'C18': (ALL, []), 'C19': (ALL, []),
}
SAFETY = re.compile(r'arithmetic|division|precondition|decrease|terminat|bit shift|unreachable')
def tabmods(rx):
    """the evaluation modules a cone needs"""
    r = []
    for t in ['ccc', 'mark', 'canon', 'compat', 'cjk', 'comp', 'trail']:
        for h in 'AB':
            if any(re.match(x, f'tevals::{t}{h}') for x in rx): r.append(f'tevals::{t}{h}')
    return r
def in_cone(rx, fid): return any(re.match(x, fid) for x in rx)
def matters(prop, fid):
    """does the property depend on this function's contract? (the copies under a laziness contract are C14's alone)"""
    if '::lazy::' in fid or '::both::' in fid: return prop == 'C14'
    if '::same::' in fid: return prop == 'C17'
    own, dep = P[prop]
    return in_cone(own + dep, fid)

# ---------------------------------------------------------------------------------------------- running things
def run(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, text=True, errors='replace')
    try: o, e = p.communicate(timeout=timeout); return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, e = p.communicate(); return -9, o, e
def tool_vx():
    rc, o, e = run(['cargo', 'build', '--release', '--offline', '--quiet', '--manifest-path', V + '/extract/Cargo.toml', '--target-dir', BUILD + '/vx'], 600)
    if rc: raise SystemExit(f'check: building the extractor failed\n{e[-2000:]}')
    return BUILD + '/vx/release/vx'
def tool_replay(kind='dev', work=None):
    """the search program, linked with /repo's current tree"""
    d = f'{BUILD}/replay-{kind}'
    cmd = ['cargo', 'build', '--offline', '--quiet', '--manifest-path', V + '/replay/Cargo.toml', '--target-dir', d]
    if kind == 'nostd': cmd += ['--no-default-features']
    if kind == 'release': cmd += ['--release']
    if REPO != '/repo': cmd += ['--config', f'patch.crates-io.unicode-normalization.path="{REPO}"']
    rc, o, e = run(cmd, 600)
    if rc: return None, e
    return f'{d}/{"release" if kind == "release" else "debug"}/replay', ''
def extract(vx, out, features, release=False, external=(), canary=''):
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    cmd = [vx, REPO + '/src', V + '/contracts', out, '--features', features]
    if release: cmd.append('--release')
    if canary: cmd += ['--canary', canary]
    if external: cmd += ['--external', ','.join(sorted(external))]
    rc, o, e = run(cmd, 120)
    if rc: return None, (o + e)[-3000:]
    for f in LIB: os.symlink(f'{V}/vlib/{f}.rs', f'{out}/{f}.rs')
    rc, o, e = run([sys.executable, '-B', V + '/tools/gen_tevals.py', out + '/tabs.rs', out + '/tevals.rs'], 60)
    if rc: return None, (o + e)[-3000:]
    mods = LIB[:LIB.index('tabproof')] + ['tabs', 'tevals'] + LIB[LIB.index('tabproof'):]
    open(out + '/main.rs', 'w').write(HEAD + '\n' + ''.join(f'mod {m};\n' for m in mods) + open(out + '/main_body.rs').read() + '\nfn main(){}\n')
    return json.load(open(out + '/report.json')), ''
class Res: pass
def fn_index(out):
    """(file, line) -> name of the function under verification"""
    idx = {}
    for dp, _, fs in os.walk(out):
        for f in fs:
            if not f.endswith('.rs'): continue
            rel = os.path.relpath(os.path.join(dp, f), out); mod = {'main.rs': 'lib', 'main_body.rs': 'lib'}.get(rel, rel[:-3].replace('/', '::'))
            cur, name, sub, L = None, None, '', []
            for line in open(os.path.join(out, rel), errors='replace'):
                m = re.match(r'\s*// VP-FN (\S+)', line)
                if m: cur = m[1]
                if mod == 'tevals' or mod == 'evals':
                    m = re.match(r'pub mod (\w+)', line)
                    if m: sub = '::' + m[1]
                m = re.match(r'[^/]*\bfn (\w+)', line)
                if m and not cur: name = m[1]
                L.append((cur, f'{mod}{sub}', name))
                if re.match(r'\s*// VP-END', line): cur = None
            idx[rel] = L
    return idx
REPOMODS = set()
def locate(idx, f, line):
    L = idx.get(f)
    if not L or not (1 <= line <= len(L)): return ('other', f'{f}:{line}')
    cur, mod, name = L[line - 1]
    if cur: return ('fn', cur)
    if mod in REPOMODS: return ('mod', f'{mod}::~{name}')
    return ('lemma', f'{mod}::{name}')
def parse_errors(err, idx):
    """the verifier's messages: kind, place, the clause it names"""
    out = []
    blocks = re.split(r'\n(?=error|warning|note)', '\n' + err)
    for b in blocks:
        b = b.lstrip('\n')
        m = re.match(r'error(?:\[\w+\])?: (.*)', b)
        if not m or m[1].startswith('aborting due'): continue
        locs = re.findall(r'(?:-->|:::) ([^\s:]+):(\d+):(\d+)', b)
        cur, last, clause = None, None, None
        for l in b.split('\n'):
            x = re.match(r'\s*(?:-->|:::) ([^\s:]+):(\d+)', l)
            if x: cur = x[1]
            x = re.match(r'\s*(\d+)\s*[|/] ?(.*)', l)
            if x: last = (cur, int(x[1]), x[2])
            if 'failed th' in l and last: clause = last
        where = locate(idx, locs[0][0], int(locs[0][1])) if locs else ('other', '?')
        if where[0] == 'lemma' or where[0] == 'other':
            for f, ln, _ in locs[1:]:
                w = locate(idx, f, int(ln))
                if w[0] == 'fn' and (where[1].startswith('vp::') or not re.search(r'not satisfied|failed|overflow|exceeded', m[1])): where = w; break
        out.append(dict(msg=m[1].strip(), where=where, text=b[:3000], clause=clause, locs=locs))
    return out
VERIF = re.compile(r'not satisfied|assertion failed|overflow|underflow|possible division|bit shift|simplifies to false|could not prove termination|failed|unreachable|rlimit|Resource limit|loop must have|decreases')
def verus(out, modules, timeout, extra=(), threads=8):
    r = Res()
    cmd = ['verus', '--num-threads', str(threads), '--time-expanded', '--output-json'] + list(extra)
    for m in modules:
        cmd += ['--verify-root'] if m == 'lib' else ['--verify-only-module', m]
    cmd.append('main.rs')
    r.cmd = ' '.join(cmd)
    t = time.time()
    rc, o, e = run(['bash', '-c', 'ulimit -s unlimited; exec "$@"', 'x'] + cmd, timeout, cwd=out)
    r.wall = time.time() - t
    r.rc, r.err, r.fns, r.finished = rc, e, {}, False
    try:
        j = json.loads(o[o.index('{'):])
        vr = j.get('verification-results', {})
        if rc != -9 and 'verified' in vr and vr['verified'] > 0 and not vr.get('encountered-vir-error') and j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times'):
            r.finished, r.verified, r.errors = True, vr['verified'], vr['errors']
            for m in j['times-ms']['smt']['smt-run-module-times']:
                for f in m.get('function-breakdown', []): r.fns[f['function']] = f
            r.smt_ms = j['times-ms']['smt'].get('smt-run', j['times-ms']['smt'].get('total', 0))
            if not isinstance(r.smt_ms, (int, float)): r.smt_ms = 0
            r.verify_ms = j['times-ms'].get('total-verify', 0)
    except Exception as ex: r.err += f'\n(check: no result from the verifier: {ex})'
    return r

# ---------------------------------------------------------------------------------------------- the theory, verified once per content
def theory_key():
    h = hashlib.sha256()
    for f in sorted(os.listdir(V + '/vlib')):
        if f.endswith('.rs') and f not in ('tabproof.rs', 'hash.rs', 'canary.rs'): h.update(f.encode() + open(f'{V}/vlib/{f}', 'rb').read())
    return h.hexdigest()
def evals_known():
    try: return json.load(open(BUILD + '/theory.json')).get('key') == theory_key()
    except Exception: return False

# ---------------------------------------------------------------------------------------------- the proof part
class Proof: pass
def prove(vx, work, prop, features, release=False, all_mods=False, deadline=400, with_evals=False):
    """extracts and verifies; functions out of the verifier's reach are taken out (their contracts assumed) one by one"""
    p = Proof()
    own, dep = P[prop]
    cone = own + dep
    p.external, p.log, p.lost, p.gave_up, p.fail, p.undecided = {}, [], [], None, [], []
    p.fns, p.report, p.wall, p.smt_ms, p.cmd, p.verified = {}, None, 0, 0, '', 0
    out = os.path.join(work, 'x-' + (features or 'none') + ('-rel' if release else ''))
    t0 = time.time()
    more = []
    for attempt in range(8):
        rep, msg = extract(vx, out, features, release, p.external)
        if rep is None: p.gave_up = 'the extractor does not read the tree: ' + msg; return p
        p.report = rep
        REPOMODS.clear(); REPOMODS.update(f['module'] for f in rep['functions']); REPOMODS.update(['lib', 'tables'])
        new = {f['key']: '; '.join(f['lost'])[:300] for f in rep['functions'] if f['lost'] and f['key'] not in p.external}
        if new: p.external.update(new); continue
        idx = fn_index(out)
        mods = [m for m in sorted(REPOMODS) if all_mods or any(in_cone(cone, f['key']) for f in rep['functions'] if f['module'] == m) or any(in_cone(cone, m + '::~x') for _ in [0])]
        mods = [m for m in mods if m == 'lib' or os.path.exists(f'{out}/{m.replace("::", "/")}.rs')]
        mods += PURE + ['hash', 'tabproof', 'canary'] + (tabmods([r'tevals::']) if all_mods else tabmods(cone))
        if with_evals: mods += ['evals::' + e for e in EVALS]
        left = deadline - (time.time() - t0)
        if left < 20: p.gave_up = 'time limit'; return p
        r = verus(out, mods, left, more)
        p.wall += r.wall; p.cmd = r.cmd
        errs = parse_errors(r.err, idx)
        p.log.append(r.err)
        p.mods = mods
        if not r.finished and errs and r.rc != -9 and all(VERIF.search(e['msg']) for e in errs) and any('canary::' in e['where'][1] for e in errs):
            # an evaluation came out false: the verifier goes on, but gives no statistics
            r.finished, r.verified, r.errors, r.smt_ms, r.verify_ms = True, 0, len(errs), 0, 0
        if not r.finished:
            if r.rc == -9: p.gave_up = 'the verifier did not finish in time'; return p
            # outside the language the verifier accepts: take the functions named out
            blame = {}
            for e in errs:
                if e['where'][0] == 'fn' and e['where'][1] not in p.external: blame[e['where'][1]] = e['msg'][:300]
            if not blame:
                p.gave_up = 'the extracted crate is not accepted: ' + '; '.join(e['msg'][:200] for e in errs[:4]) + (r.err[-600:] if not errs else ''); return p
            p.external.update(blame); continue
        p.fns, p.smt_ms, p.verified, p.verify_ms = r.fns, r.smt_ms, r.verified, r.verify_ms
        ver = [e for e in errs if not e['where'][1].startswith('canary::')]
        canary = [e for e in errs if e['where'][1].startswith('canary::must_fail')]
        p.canary_failed_as_it_must = bool(canary)
        lim = [e for e in ver if re.search(r'rlimit|Resource limit', e['msg']) and (e['where'][0] != 'fn' or matters(prop, e['where'][1]))]
        if lim and not more: more = ['--rlimit', '60']; continue
        if not canary: p.gave_up = 'the canary was not refused'; return p
        contracts = {f['key'] for f in rep['functions'] if f['contract'] or f['module'] == 'lib'}
        bare = {f['name'] for f in rep['functions'] if not f['contract'] and f['module'] != 'lib'}
        unused = {f['key']: f['unused'] for f in rep['functions'] if f.get('unused')}
        calls = {f['key']: set(f['calls']) for f in rep['functions']}
        gone = [k for k in rep['missing'] if not k.startswith('lib::')]
        for e in ver:
            kind, fid = e['where']
            tag = re.search(r'\[((?:C\d\d ?)+)\]', e['clause'][2]) if e['clause'] else None
            e['fid'] = fid
            if tag: mine = prop in tag[1].split(); e['own'] = mine; inc = mine
            else: inc = matters(prop, fid); e['own'] = inc and in_cone(own, fid)
            if prop == 'C18' and not SAFETY.search(e['msg']): e['own'] = False
            if re.search(r'rlimit|Resource limit', e['msg']): e['own'] = False; e['why'] = 'resource limit'
            if kind == 'fn' and calls.get(fid, set()) & bare: e['own'] = False; e['why'] = 'calls a function without a contract: ' + ', '.join(sorted(calls[fid] & bare))
            if kind == 'fn' and unused.get(fid): e['own'] = False; e['why'] = 'the annotations of its loops do not fit: ' + '; '.join(unused[fid])[:200]
            lost = [k for k in gone if k.split('::')[0] == fid.split('::')[0]]
            if kind == 'fn' and lost: e['own'] = False; e['why'] = 'a function with a contract is no longer there: ' + ', '.join(lost)[:200]
            if fid.endswith('::Clone::vp_clone') and prop != 'C18': e['own'] = False; e['why'] = 'asks for an equal value, which is more than an equal text'
            if 'Recompositions::lazy' in fid and not drawn(out): e['own'] = False; e['why'] = 'where it draws on the decomposition was not found'
            if kind == 'lemma' and (fid.split('::')[0] in PURE or fid.startswith('evals')): e['own'] = False; e['why'] = 'theory lemma'; inc = True
            if kind == 'other': e['own'] = False; inc = True
            if not inc: continue
            (p.fail if e['own'] else p.undecided).append(e)
        return p
    p.gave_up = 'no fixed point'
    return p

def drawn(out): return '. both__next (' in open(out + '/recompose.rs').read()

def vacuity(vx, work, features, external, deadline=300):
    """functions in which `false` can be proved at entry or at exit: their contracts would say nothing"""
    vac, n = [], 0
    for mode in ['entry', 'exit']:
        out = os.path.join(work, 'v-' + mode)
        rep, msg = extract(vx, out, features, False, external, mode)
        if rep is None: return None, 0
        idx = fn_index(out)
        mods = [m for m in sorted(REPOMODS) if m == 'lib' or os.path.exists(f'{out}/{m.replace("::", "/")}.rs')]
        r = verus(out, mods, deadline)
        if not r.finished: return None, 0
        refused = {e['where'][1] for e in parse_errors(r.err, idx)}
        fs = [f['key'] for f in rep['functions'] if not f['external']]
        n += len(fs)
        vac += [f'{k} ({mode})' for k in fs if k not in refused]
        shutil.rmtree(out, ignore_errors=True)
    return vac, n

# ---------------------------------------------------------------------------------------------- the search part
def search(exe, prop, seed, ms, threads, timeout=None):
    rc, o, e = run(['bash', '-c', 'ulimit -v 12000000; exec "$@"', 'search', exe, prop, '--seed', str(seed), '--ms', str(ms), '--threads', str(threads)], timeout or ms / 1000 + 90)
    s = Res(); s.rc, s.out = rc, o
    m = re.search(r'STATS evaluations=(\d+) nontrivial=(\d+)', o); s.evals, s.nontriv = (int(m[1]), int(m[2])) if m else (0, 0)
    s.samples = [l[7:] for l in o.split('\n') if l.startswith('SAMPLE ')][:3]
    m = re.search(r'^FAIL (\S+) input=\[([^\]]*)\] (.*)$', o, re.M)
    s.fail = (m[2], m[3][:2000]) if m else None
    s.crash = None if m or rc == 0 else (f'the search ended with code {rc}: {e[-500:]}')
    return s
def known_findings():
    r = []
    try:
        for l in open(V + '/KNOWN_FINDINGS.txt'):
            m = re.match(r'known: property=(C\d\d) input=\[([^\]]*)\] (.*)', l)
            if m: r.append((m[1], m[2], m[3]))
    except FileNotFoundError: pass
    return r

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='vp-')
    try: return decide(prop, tier, thorough, seed, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def decide(prop, tier, thorough, seed, work):
    own, dep = P[prop]
    vx = tool_vx()
    exes = {}
    exe, msg = tool_replay('dev')
    if exe is None:
        print(f'check: /repo does not build: {msg[-1500:]}'); return 2
    have_evals = evals_known()
    srch = {}
    ms = (90000 if thorough else 9000)
    def s_main():
        if prop != 'C19': srch['dev'] = search(exe, prop, seed, ms, 4)
    th = threading.Thread(target=s_main); th.start()
    proofs = {}
    if prop == 'C19':
        same, difft = same_text(vx, work)
        proofs['none'] = prove(vx, work, prop, '', all_mods=True, with_evals=not have_evals or thorough)
        if not same or thorough: proofs['std'] = prove(vx, work, prop, 'std', all_mods=True)
    else:
        proofs['std'] = prove(vx, work, prop, 'std', all_mods=thorough, with_evals=not have_evals or thorough)
        if thorough:
            proofs['none'] = prove(vx, work, prop, '', all_mods=True)
            proofs['std, release'] = prove(vx, work, prop, 'std', release=True, all_mods=True)
    th.join()
    vac = None
    if thorough and not any(p.gave_up for p in proofs.values()):
        k = 'none' if prop == 'C19' else 'std'
        vac = vacuity(vx, work, '' if k == 'none' else 'std', proofs[k].external)
    violation = None; notes = []
    fails, und = [], []
    for k, p in proofs.items():
        fails += [(k, e) for e in p.fail]; und += [(k, e) for e in p.undecided]
    if prop == 'C19':
        # a property of pairs of configurations: what fails in both alike is another property's business
        ids = {k: {e['fid'] for e in p.fail + p.undecided} | set(p.external) for k, p in proofs.items()}
        if same: fails, only = [], set()
        else: only = ids['std'] ^ ids['none']; fails = [(k, e) for k, e in fails if e['fid'] in only]
        und = [(k, e) for k, e in und if not same and e['fid'] in only]
        a, m1 = tool_replay('dev'); b, m2 = tool_replay('nostd')
        if b is None: violation = ('the crate does not build without its features: ' + m2[-800:], None)
        else:
            n = 200000 if thorough else 30000
            ra = run([a, 'dump', '--seed', str(seed), '--n', str(n)], 300); rb = run([b, 'dump', '--seed', str(seed), '--n', str(n)], 300)
            la, lb = ra[1].split('\n'), rb[1].split('\n')
            s = Res(); s.rc, s.evals, s.nontriv, s.samples, s.fail, s.crash = 0, len(la) - 1, len(set(la)) - 1, [x[17:] for x in la[500:503]], None, None
            if ra[0] or rb[0]: s.crash = f'dump ended with {ra[0]}, {rb[0]}'
            for x, y in zip(la, lb):
                if x != y: s.fail = (x[17:], 'observable behaviour differs between the two feature settings'); break
            srch['dump'] = s
            if not same and not s.fail and not thorough: pass
    elif thorough or und or fails:
        for kind in ['release', 'nostd'] if thorough else []:
            x, m = tool_replay(kind)
            if x and not any(s.fail for s in srch.values()): srch[kind] = search(x, prop, seed + 1, ms // 2, 8)
    degraded = any(p.gave_up or any(matters(prop, x) for x in p.external) for p in proofs.values())
    inp = next((s.fail for s in srch.values() if s.fail), None)
    if not inp and not violation:
        c = next((s for s in srch.values() if s.crash and s.rc in (-4, -6, -7, -8, -11)), None)
        if c: violation = (f'the crate makes the program end with signal {-c.rc}: {c.crash}', None)
    if (fails or und or degraded) and not inp and not violation and prop != 'C19':
        srch['extended'] = search(exe, prop, seed + 17, 150000 if thorough else 60000, 8)
        inp = srch['extended'].fail
    known = [k for k in known_findings() if k[0] == prop]
    for k in known: print(f'KNOWN-FINDING: property={prop} {k[2]}')
    if inp and any(k[1] == inp[0] for k in known): inp = None
    path = f'{V}/evidence/replay-{prop}.txt'
    os.makedirs(V + '/evidence', exist_ok=True)
    viol = 0
    if violation or inp or fails:
        viol = 1
        with open(path, 'w') as f:
            f.write(f'property {prop}\n')
            if inp: f.write(f'failing input (code points): [{inp[0]}]\n{inp[1]}\nrerun: {exe} one {prop} {inp[0] if len(inp[0]) < 4000 else "<input>"}\n')
            if violation: f.write(violation[0] + '\n')
            for k, e in fails + und: f.write(f'\nfailed obligation ({k}): {e["fid"]}: {e["msg"]}\n{e["text"]}\n')
            if not fails and not und: f.write('\nno failed obligation: ' + '; '.join(f'{k}: {p.gave_up or "out of reach: " + ", ".join(p.external) if p.external or p.gave_up else "all discharged"}' for k, p in proofs.items()) + '\n')
    write_evidence(prop, tier, seed, proofs, srch, fails, und, viol, have_evals, vac)
    if vac and vac[0]: print(f'check: {prop}: contracts that can be met only where false holds: ' + ', '.join(vac[0][:10]))
    for k, p in proofs.items():
        if p.gave_up: print(f'check: {prop} [{k}]: bounded only: {p.gave_up[:1000]}')
        for x, why in [y for y in p.external.items() if matters(prop, y[0])]: print(f'check: {prop} [{k}]: out of the verifier\'s reach, bounded stand-in: {x}: {why[:200]}')
    for k, e in und: print(f'check: {prop} [{k}]: undecided obligation {e["fid"]}: {e["msg"][:160]} ({e.get("why", "in what the proof rests on")})')
    for k, e in fails: print(f'check: {prop} [{k}]: FAILED obligation {e["fid"]}: {e["msg"][:160]}' + (f' -- {e["clause"][2].strip()[:160]}' if e['clause'] else ''))
    for k, s in srch.items():
        if s.crash: print(f'check: {prop}: search {k}: {s.crash}')
    n = sum(1 for p in proofs.values() for f in p.fns.values() if f['success'])
    print(f'check: {prop}: {n} obligations discharged, {sum(s.evals for s in srch.values())} inputs searched, {time.time() - T0:.0f} s')
    if viol:
        if inp: print(f'check: {prop}: input [{inp[0][:300]}]: {inp[1][:500]}'); print(f'VIOLATION property={prop} replay={path}')
        elif violation: print(violation[0][-500:]); print(f'VIOLATION property={prop} replay={path}')
        else: print(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        return 1
    return 0

def same_text(vx, work):
    """is the text selected by the two feature settings the same, function by function?"""
    a, b = os.path.join(work, 'cmp-std'), os.path.join(work, 'cmp-none')
    ra, _ = extract(vx, a, 'std'); rb, _ = extract(vx, b, '')
    if ra is None or rb is None: return False, 'not extracted'
    fs = sorted(f for f in os.listdir(a) if f.endswith('.rs')); gs = sorted(f for f in os.listdir(b) if f.endswith('.rs'))
    d = [f for f in fs if f not in gs or open(f'{a}/{f}').read() != open(f'{b}/{f}').read()]
    return fs == gs and not d, ', '.join(d)

TRUSTED = ['Verus 0.2026.09.13 and its Z3; rustc', 'the extraction /verif/extract (what it changes is listed in DESIGN.md)',
    'the Unicode data /verif/spec/ucd16.txt (derived independently of /repo, cross-checked with ICU, python and perl)',
    'ax_scalar, ax_chr: a char is a Unicode scalar value and is determined by it', 'twin axioms: an array constant has the elements written in its initialiser',
    'contracts assumed for the standard library and dependencies: slice sort_by_key is a stable sort (sorted by key, order within a key kept), sort_unstable_by_key sorts, str::chars, Option::copied, char::from_u32_unchecked, mem::replace and mem::swap, Formatter::write_char, Clone of source iterators and of Vec, TinyVec/ArrayVec as sequences']
def write_evidence(prop, tier, seed, proofs, srch, fails, und, viol, have_evals, vac=None):
    own, dep = P[prop]
    obl = dis = 0; smt = 0; funs = []; modes = {}
    for k, p in proofs.items():
        for n, f in p.fns.items():
            if n.startswith('main::canary'): continue
            obl += 1; dis += bool(f['success']); modes[f.get('mode:', '?')] = modes.get(f.get('mode:', '?'), 0) + 1
        smt += p.smt_ms
        if p.report:
            funs += [f['key'] for f in p.report['functions'] if matters(prop, f['key']) and (f['contract'] or f['module'] == 'lib') and f['key'] not in p.external and f['key'] not in funs]
    bounded = sorted({x for p in proofs.values() for x in p.external if matters(prop, x)} | {f'{k}: everything ({p.gave_up[:200]})' for k, p in proofs.items() if p.gave_up})
    cov = dict(obligations=obl, discharged=dis, checker_cmd='; '.join(sorted({p.cmd for p in proofs.values() if p.cmd}))[:3000] or 'verus', trusted_base=TRUSTED,
        obligation_unit='one function, lemma or definition (termination) as submitted to the solver or the evaluator; each carries all its conditions',
        obligations_by_mode=modes, functions_under_contract=funs, functions_under_contract_count=len(funs),
        back_end='Verus to Z3; finite facts about tables and Unicode data by Verus\' own evaluator (by compute)', solver_ms=smt,
        failed_obligations=[f'{k}: {e["fid"]}: {e["msg"][:200]}' for k, e in fails], undecided_obligations=[f'{k}: {e["fid"]}: {e["msg"][:200]}' for k, e in und],
        bounded_standins=bounded, theory_evaluations='verified when the framework was set up (same content)' if have_evals and tier != 'thorough' else 'verified in this run',
        configurations=list(proofs), canary='the contradiction test was refused, as it must be' if all(getattr(p, 'canary_failed_as_it_must', False) for p in proofs.values()) else 'not reached',
        evaluations=sum(s.evals for s in srch.values()), distinct_nontrivial=sum(s.nontriv for s in srch.values()),
        rule='search for failing inputs beside the proof: all characters or pairs where the property is about those; else fixed boundary texts, every character, and weighted random texts; non-trivial: more than one character and not all ASCII/Latin-1',
        samples=[x for s in srch.values() for x in s.samples][:5])
    if vac is not None: cov['vacuity'] = 'not reached' if vac[0] is None else f'{vac[1]} tests (false at entry and at exit of every function under contract), all refused' if not vac[0] else 'accepted: ' + ', '.join(vac[0])
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=TRUSTED + [f'bounded, not proved in this run: {b}' for b in bounded], wall_s=round(time.time() - T0, 1), violations=viol)
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)

def setup():
    """builds the tools, and verifies the part of the theory that has nothing of /repo in it"""
    os.makedirs(BUILD, exist_ok=True)
    vx = tool_vx(); tool_replay('dev'); tool_replay('nostd')
    if not evals_known():
        work = tempfile.mkdtemp(prefix='vp-')
        try:
            rep, msg = extract(vx, work + '/x', 'std')
            if rep is None: print(msg); return 1
            r = verus(work + '/x', ['evals::' + e for e in EVALS] + PURE, 900)
            if r.finished and r.errors == 0: json.dump(dict(key=theory_key(), verified=r.verified, wall_s=r.wall), open(BUILD + '/theory.json', 'w'))
            else: print(r.err[-3000:])
            print(f'setup: theory: {getattr(r, "verified", 0)} verified, {getattr(r, "errors", "?")} errors, {r.wall:.0f} s')
        finally: shutil.rmtree(work, ignore_errors=True)
    return 0
if __name__ == '__main__':
    sys.exit(setup() if sys.argv[1] == 'setup' else main())
