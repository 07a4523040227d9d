#!/usr/bin/env python3
"""check.py <property>: decides one property.  Exit 0 held, 1 violation, 2 tool error."""
import json, os, random, shutil, subprocess, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import Check, ToolError


FULL = 'CONSTANTS RB = 15 FB = 15 A = 8 G = 5 RateBase = 4 Sat = 32\n'
CODER_CONF = open(vlib.SPEC + '/Conf.cfg').read() + FULL


def rc_model(ck, invs):
    """Range coder at reduced precision, all histories up to a depth."""
    runs = [('T1', 'FALSE', ck.q(5, 7)), ('T2', 'TRUE', ck.q(5, 7)), ('T3', 'FALSE', ck.q(9, 14))]
    for t, adapting, depth in runs:
        ck.model('MCRangeCoder', '''SPECIFICATION Spec
CONSTANTS RB = 4 FB = 4 A = 2 G = 0 RateBase = 1 Sat = 3
Depth = %d Unit = 4 Adapting = %s
CONSTANT Tables0 <- %s
CONSTANT Others <- OthersDef
INVARIANTS %s
CHECK_DEADLOCK FALSE
''' % (depth, adapting, t, invs), 'all histories of up to %d symbols, tables %s, reduced precision' % (depth, t))


def c01(ck):
    rc_model(ck, 'RoundTrip Bounds')
    t = ck.harness('coder', 'c01.ndjson', ['--extra', 'c01', '--n', ck.q(4000, 40000)])
    ck.conform('ConfRangeCoder', t, CODER_CONF, 'real coder histories, carries steered; real decoder on raw bytes')


def c02(ck):
    rc_model(ck, 'Valid')
    t = ck.harness('coder', 'c02.ndjson', ['--extra', 'c02', '--n', ck.q(300, 4000)])
    ck.conform('ConfRangeCoder', t, CODER_CONF, 'all default tables; every alphabet/symbol/counter; long histories; interleavings')


def c03(ck):
    rc_model(ck, 'Whole SelfContained')
    t = ck.harness('coder', 'c03.ndjson', ['--extra', 'c03', '--n', ck.q(1000, 15000)])
    ck.conform('ConfRangeCoder', t, CODER_CONF, 'coder objects reused for several segments, decoders stopping early')


def c04(ck):
    ck.model('MCCodes', '''SPECIFICATION Spec
CONSTANTS UvlcMax = %d LebMax = %d SuMax = %d NsMax = %d FMax = %d LeMax = 1
INVARIANTS RoundTrip PrefixFree WellFormed
CHECK_DEADLOCK FALSE
''' % ck.q((700, 3000, 8, 40, 8), (40000, 140000, 14, 220, 14)), 'every code, all values within bounds')
    t = ck.harness('codes', 'codes.ndjson', ['--n', ck.q(100, 4000)])
    ck.conform('ConfCodes', t, note='real writers and readers, exhaustive small values + boundaries + random')


def c05(ck):
    cases = ck.generate('MCBitWriter', '''SPECIFICATION Spec
CONSTANTS Depth = %d Lens = {%s}
INVARIANTS PartShort Exact AlignWhole
CHECK_DEADLOCK FALSE
''' % ck.q((4, '0, 3, 7, 8'), (4, '0, 2, 5, 7, 8, 9, 17')), 'cases.ndjson', 'all operation sequences of the given length')
    t = ck.harness('bitwriter', 'bits.ndjson', ['--in', cases, '--n', ck.q(400, 2000)])
    ck.conform('ConfBitWriter', t, note='specification behaviours and long random histories replayed into the real writer')


def c06(ck):
    cases = ck.generate('MCFraming', '''SPECIFICATION Spec
CONSTANT Depth = %d
CONSTANT Kinds <- KindSet
INVARIANTS Emit RoundTrip
CHECK_DEADLOCK FALSE
''' % ck.q(2, 3), 'cases.ndjson', 'all sequences of units over a set of kinds and sizes')
    t = ck.harness('framing', 'units.ndjson', ['--in', cases, '--n', ck.q(600, 4000)])
    ck.conform('ConfFraming', t, note='sequences of OBUs through the real temporal unit writer')


def c07(ck):
    cases = ck.walks('MCSeqHeader', '''SPECIFICATION Spec
INVARIANTS Emit RoundTrip
CHECK_DEADLOCK FALSE
''', 'cases.ndjson', ck.q(3500, 16000), parts=4)
    t = ck.harness('seqhdr', 'seq.ndjson', ['--in', cases])
    ck.conform('ConfSeqHeader', t, note='valid sequence configurations, chains of up to three per encoder')


def c08(ck):
    cases = ck.walks('MCMetadata', '''SPECIFICATION Spec
INVARIANTS Emit RoundTrip Accepted
CHECK_DEADLOCK FALSE
''', 'cases.ndjson', ck.q(4000, 16000), parts=4)
    t = ck.harness('meta', 'meta.ndjson', ['--in', cases])
    ck.conform('ConfMetadata', t, note='metadata of every kind, chains of payloads and paddings per encoder')


def frame_histories(ck):
    cases = ck.walks('MCFrameHeader', '''SPECIFICATION Spec
CONSTANT Frames = 4
INVARIANTS Emit RoundTrip Laws
CHECK_DEADLOCK FALSE
''', 'cases.ndjson', ck.q(1260, 6000), depth=20000, parts=7)
    return ck.harness('framehdr', 'frames.ndjson', ['--in', cases])


def c09(ck):
    ck.conform('ConfFrameHeader', frame_histories(ck), env={'PART': 'coded'},
               note='histories of a sequence header and four frame headers, read as a decoder does')


def c10(ck):
    ck.conform('ConfFrameHeader', frame_histories(ck), env={'PART': 'state'},
               note='histories of a sequence header and four frame headers; state after each against the decoder\'s')


def c11(ck):
    cfg = '''SPECIFICATION Spec
CONSTANT Depth = %d
CONSTANT Groups <- %s
INVARIANTS Total LastWins ValidImpliesSet
CHECK_DEADLOCK FALSE
'''
    n = ck.q(2000, 40000)
    for depth, voc in ((2, 'FullVocab'), (3, 'CoreVocab')) if ck.quick else ((3, 'FullVocab'), (4, 'CoreVocab')):
        cases = ck.generate('MCCli', cfg % (depth, voc), 'cases-%s.ndjson' % voc, 'all lists of up to %d option groups' % depth)
        t = ck.harness('cli', 'cli-%s.ndjson' % voc, ['--in', cases, '--extra', 'parse', '--n', n])
        ck.conform('ConfCli', t, note='argument lists of the specification and random ones through the real parser')
    t = ck.harness('cli', 'long.ndjson', ['--extra', 'long', '--n', 5000], mem=800 << 20)
    ck.conform('ConfCli', t, note='long argument lists, in little memory')


def proc_runs(ck, exe, lists, out):
    """Runs the real program in an empty scratch directory for each argument list; records what happened."""
    path = os.path.join(ck.dir, out)
    scratch = os.path.join(ck.dir, 'run')
    with open(path, 'w') as f:
        for i, toks in enumerate(lists):
            shutil.rmtree(scratch, ignore_errors=True)
            os.makedirs(scratch)
            readable = True
            if not any('nofile' in t for t in toks):
                open(scratch + '/a', 'wb').write(bytes(range(256)) * 4)
            else:
                readable = False
            before = set(os.listdir(scratch))
            how = 'exit'
            try:
                p = subprocess.run([exe] + toks, cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=60, preexec_fn=vlib._limits)
                status, said = p.returncode, len(p.stdout) > 0 or len(p.stderr) > 0
                if status < 0 or status == 101:
                    how = 'signal or panic, status %d' % status
            except subprocess.TimeoutExpired:
                how, status, said = 'still running after 60 s', -1, False
            outname = ''
            for j, t in enumerate(toks[:-1]):
                if t in ('-o', '--output'):
                    outname = toks[j + 1]
            created = sorted(set(os.listdir(scratch)) - before)
            f.write(json.dumps({'id': i + 1, 'k': 'proc', 'args': [['invalid' if '\udc80' <= ch <= '\udcff' else ch for ch in t] for t in toks], 'how': how, 'status': status,
                                'said': said, 'created': created, 'readable': readable, 'outname': outname}) + '\n')
    shutil.rmtree(scratch, ignore_errors=True)
    return path


def c12(ck):
    cases = ck.generate('MCCliValid', '''SPECIFICATION Spec
INVARIANTS Emit Agree
CHECK_DEADLOCK FALSE
''', 'cases.ndjson', 'every limit, every subset of options missing')
    t = ck.harness('cli', 'valid.ndjson', ['--in', cases, '--extra', 'valid', '--n', ck.q(1000, 40000)])
    ck.conform('ConfCli', t, note='settings of the specification through the real parser and validator')
    exe = vlib.build_binary()
    rnd = random.Random(ck.seed)
    full = ['-i', 'a', '-o', 'b', '-s', '16x8']
    lists = [[], full, ['-i', 'a', '-o', 'b'], ['-i', 'a', '-s', '16x8'], ['-o', 'b', '-s', '16x8'], full + ['-q', '1'],
             full + ['junk'], full + [''], full + ['-'], ['-h'], full + ['--help'], ['--help', 'junk'], ['junk', '-h'],
             full + ['-s'], full + ['-r', '0'], full + ['-r', '1/0'], full + ['-r', '25/2', '-o', 'c'], full + ['-fr', '0'],
             full + ['-fr', '2'], full + ['-fr', 'x'], full + ['-s', '0x8'], full + ['-s', '8192x8'], full + ['-s', '8x0'],
             ['-i', 'nofile', '-o', 'b', '-s', '16x8'], ['-i', 'nofile', '-o', 'b', '-s', '16x8', '-fr', '1'],
             ['-s', '16x8', '-o', 'b', '-i', 'a', '-r', '30000/1001']]
    for raw in ('\udcff', 'a\udc80', '-\udcfe', '\udcc3'):      # bytes which are not characters
        lists += [[raw], full + [raw], full + ['-i', raw], full + ['-o', raw], full + ['-s', '1x' + raw]]
    alls = [[''.join(t) for t in json.loads(l)] for l in open(cases)]
    small = [l for l in alls if not any(len(t) > 7 or '819' in t or '9999' in t for t in l)]
    rnd.shuffle(small)
    lists += small[:ck.q(60, 600)]
    ck.conform('ConfCli', proc_runs(ck, exe, lists, 'proc.ndjson'), note='runs of the real program')


def c13(ck):
    cases = ck.generate('MCReader', '''SPECIFICATION Spec
CONSTANT MaxLen = %d
CONSTANT PlaneSets <- PlaneSetsDef
INVARIANTS Correct
CHECK_DEADLOCK FALSE
''' % ck.q(6, 8), 'cases.ndjson', 'all deliveries of small inputs against a reader taking arbitrary parts')
    t = ck.harness('reader', 'reader.ndjson', ['--in', cases, '--n', ck.q(300, 1200)], timeout=800)
    ck.conform('ConfReader', t, note='delivery schedules replayed through pipes; regular files around the buffer size')


def feed(fd, pieces, data, proc):
    """Writes data in the given pieces; each piece is taken before the next one is written."""
    import array, fcntl, termios, time
    at = 0
    try:
        for n in pieces:
            piece = data[at:at + n]
            at += n
            while piece:
                piece = piece[os.write(fd, piece[:65536]):]
            buf, k = array.array('i', [0]), 0
            while k < 400 and proc.poll() is None:   # wait until it has been taken (or nobody takes it)
                fcntl.ioctl(fd, termios.FIONREAD, buf)
                if buf[0] == 0:
                    break
                k += 1
                time.sleep(0.0005 if k < 40 else 0.005)
            time.sleep(0.0005)
    except BrokenPipeError:
        pass


def one_run(exe, scratch, case):
    """One run of the real program; case: w, h, n (None: default), len, pieces, held, inp, outp."""
    import threading
    os.makedirs(scratch)
    data = (bytes(range(251)) * (case['len'] // 251 + 1))[:case['len']]
    args = {'-s': '%dx%d' % (case['w'], case['h'])}
    if case['n'] is not None:
        args['-fr'] = str(case['n'])
    stdin, feed_fd, held = subprocess.DEVNULL, None, []
    close = []
    inp, outp = case['inp'], case['outp']
    if inp in ('file', 'stdinfile'):
        open(scratch + '/in', 'wb').write(data)
    if inp == 'file':
        args['-i'] = 'in'
    elif inp == 'stdinfile':
        args['-i'] = 'stdin'
        stdin = open(scratch + '/in', 'rb')
        close.append(stdin)
    elif inp == 'fifo':
        os.mkfifo(scratch + '/in')
        args['-i'] = 'in'
    elif inp == 'dir':                    # can be opened, not read
        os.mkdir(scratch + '/in')
        args['-i'] = 'in'
    elif inp == 'nofile':
        args['-i'] = 'in'
    elif inp == 'stdindir':
        os.mkdir(scratch + '/in')
        args['-i'] = 'stdin'
        stdin = os.open(scratch + '/in', os.O_RDONLY)
    else:
        args['-i'] = 'stdin'
        stdin, feed_fd = os.pipe()
    sink, stdout, old = 'good', subprocess.PIPE, b'old contents ' * 100
    if outp == 'file':
        args['-o'] = 'out'
    elif outp == 'oldfile':
        args['-o'] = 'out'
        open(scratch + '/out', 'wb').write(old)
    elif outp == 'stdout':
        args['-o'] = 'stdout'
    elif outp == 'stdoutfile':
        args['-o'] = 'stdout'
        stdout = open(scratch + '/out', 'wb')
        close.append(stdout)
    else:
        sink = 'bad'
        if outp == 'full':
            args['-o'] = '/dev/full'
        elif outp == 'stdoutfull':
            args['-o'] = 'stdout'
            stdout = open('/dev/full', 'wb')
            close.append(stdout)
        elif outp == 'stdoutclosed':
            args['-o'] = 'stdout'
            r, w = os.pipe()
            os.close(r)
            stdout = os.fdopen(w, 'wb')
            close.append(stdout)
        else:
            args['-o'] = 'nodir/out'
    keys = sorted(args)
    random.Random(case['seed']).shuffle(keys)
    toks = [x for k in keys for x in (k, args[k])]
    p = subprocess.Popen([exe] + toks, cwd=scratch, stdin=stdin, stdout=stdout, stderr=subprocess.DEVNULL,
                         preexec_fn=vlib._limits)
    if isinstance(stdin, int) and stdin >= 0:
        os.close(stdin)
    for f in close:
        f.close()

    def feeder():
        fd = feed_fd
        if inp == 'fifo':
            fd = os.open(scratch + '/in', os.O_WRONLY)
        if fd is None:
            return
        feed(fd, case['pieces'], data, p)
        if case['held']:
            held.append(fd)
        else:
            os.close(fd)
    t = threading.Thread(target=feeder, daemon=True)
    t.start()
    how, status, said = 'exit', -1, b''
    try:
        said, _ = p.communicate(timeout=60)
        status = p.returncode
        if status < 0 or status == 101:
            how = 'signal or panic, status %d' % status
    except subprocess.TimeoutExpired:
        how = 'still running after 60 s'
        p.kill()
        p.communicate()
    if inp == 'fifo' and t.is_alive():       # the program never opened it
        try:
            os.close(os.open(scratch + '/in', os.O_RDONLY | os.O_NONBLOCK))
        except OSError:
            pass
    t.join(5)
    for fd in held:
        os.close(fd)
    out = b''
    if sink == 'good':
        if outp == 'stdout':
            out = said
        elif os.path.exists(scratch + '/out'):
            out = open(scratch + '/out', 'rb').read()
        else:
            how = 'left no output file'
    bad_in = inp in ('dir', 'stdindir', 'nofile')
    saved = b''
    if bad_in and os.path.isfile(scratch + '/out') and outp in ('file', 'oldfile'):
        saved = open(scratch + '/out', 'rb').read()
        if saved == old:                     # never opened
            saved = b''
    if bad_in and how == 'left no output file':
        how = 'exit'
    if (sink == 'bad' or bad_in) and how.startswith('signal or panic'):
        how = 'exit'             # any failure status will do
    rec = {'k': inp + '-' + outp, 'args': [list(t) for t in toks], 'len': case['len'], 'held': case['held'], 'sink': sink,
           'src': 'bad' if bad_in else 'good', 'saved': list(saved[:200]), 'how': how, 'status': status, 'out': list(out[:2000]), 'pieces': case['pieces'][:40]}
    shutil.rmtree(scratch, ignore_errors=True)
    return rec


def c14(ck):
    from concurrent.futures import ThreadPoolExecutor
    cases = ck.generate('MCRun', '''SPECIFICATION Spec
CONSTANTS MaxFrames = 2 Pieces = %d
CONSTANT Dims <- DimsDef
INVARIANTS Result AtMost Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
''' % ck.q(3, 4), 'cases.ndjson', 'all deliveries of small inputs, program and deliverer interleaved')
    exe = vlib.build_binary()
    rnd = random.Random(ck.seed)
    runs = []
    small = [json.loads(l) for l in open(cases)]
    if len(small) > ck.q(700, 8000):
        small = rnd.sample(small, ck.q(700, 8000))
    for c in small:
        c.update(len=sum(c['pieces']), inp='fifo' if rnd.random() < 0.25 else 'stdin', outp=rnd.choice(['file', 'stdout']))
        runs.append(c)
    dims = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (16, 8), (15, 9), (64, 64), (127, 63), (128, 128), (129, 65), (255, 256), (256, 255),
            (257, 1), (1, 511), (512, 2), (3, 1023), (1024, 1), (2, 2047), (4096, 1), (1, 4097), (8190, 1), (8191, 1), (1, 8191), (320, 240), (641, 481)]
    outs = ['file', 'oldfile', 'stdout', 'stdoutfile']
    bad = ['full', 'stdoutfull', 'stdoutclosed', 'nodir']
    combos = []
    for (w, h) in dims:
        fb = w * h + 2 * ((w + 1) // 2) * ((h + 1) // 2)
        for frames, k, d in [(1, 1, 0), (None, 1, 0), (None, 0, -1), (2, 2, 0), (None, 3, 0), (None, 2, 1), (3, 2, -1), (0, 1, 0), (1, 1, -1), (1, 3, 0),
                             (None, 1, fb // 2), (None, 1, (fb * 2) // 3), (4294967296, 1, 0), (None, 1, w * h)]:
            n = (fb - 1) if k == 0 else max(0, k * fb + d)
            if n <= ck.q(700000, 3000000):
                combos.append((w, h, frames, n, fb))
    rnd.shuffle(combos)
    for j, (w, h, frames, n, fb) in enumerate(combos[:ck.q(300, 5000)] * ck.q(1, 4)):
        inp = ['file', 'stdin', 'fifo', 'stdinfile'][j % 4]
        style = rnd.randrange(4)
        pieces, left = [], n
        while left > 0 and len(pieces) < 60:
            p = min(left, {0: n, 1: fb, 2: rnd.randrange(1, max(2, n // 3)), 3: rnd.choice([1, 4095, 4096, 8191, 8192, 65536])}[style] or 1)
            pieces.append(p)
            left -= p
        if left:
            pieces.append(left)
        held = inp in ('stdin', 'fifo') and frames is not None and n >= frames * fb and rnd.random() < 0.5
        outp = rnd.choice(bad) if rnd.random() < 0.15 else outs[(j // 4) % 4]
        runs.append(dict(w=w, h=h, n=frames, len=n, pieces=pieces, held=held, inp=inp, outp=outp))
    for (w, h) in [(16, 8), (8191, 1)]:      # failing outputs, always
        fb = w * h + 2 * ((w + 1) // 2) * ((h + 1) // 2)
        for outp in bad:
            for inp in ('file', 'stdin'):
                runs.append(dict(w=w, h=h, n=None, len=2 * fb, pieces=[2 * fb], held=False, inp=inp, outp=outp))
    for inp in ('dir', 'stdindir', 'nofile'):          # input that cannot be read
        for outp in outs + ['nodir']:
            for n in (None, 1, 3):
                runs.append(dict(w=16, h=8, n=n, len=0, pieces=[], held=False, inp=inp, outp=outp))
    big = [(1920, 1080)] if ck.quick else [(1920, 1080), (8191, 31), (33, 8191), (3840, 2160)]
    for (w, h) in big:
        fb = w * h + 2 * ((w + 1) // 2) * ((h + 1) // 2)
        for n in (fb, fb - 1):
            runs.append(dict(w=w, h=h, n=None, len=n, pieces=[n], held=False, inp='file', outp='file'))
    for k, c in enumerate(runs):
        c['seed'] = ck.seed * 1000003 + k
    base = os.path.join(ck.dir, 'run')
    shutil.rmtree(base, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(lambda kc: one_run(exe, '%s/%d' % (base, kc[0]), kc[1]), enumerate(runs)))
    shutil.rmtree(base, ignore_errors=True)
    path = os.path.join(ck.dir, 'runs.ndjson')
    with open(path, 'w') as f:
        for k, r in enumerate(recs):
            r['id'] = k + 1
            f.write(json.dumps(r) + '\n')
    ck.conform('ConfRun', path, note='runs of the real program: sizes, lengths, deliveries, inputs and outputs')


def c15(ck):
    cases = ck.generate('MCElements', '''SPECIFICATION Spec
INVARIANTS InRange Symmetric Emit
CHECK_DEADLOCK FALSE
''', 'pairs.ndjson', 'all pairs of neighbours for every element whose table they choose')
    t = ck.harness('elements', 'elements.ndjson', ['--in', cases, '--n', ck.q(400, 12000)])
    ck.conform('ConfElements', t, note='every element writer: table selection, symbol, side effects')


def c16(ck):
    ck.model('MCDerive', '''SPECIFICATION Spec
INVARIANTS Sizes Parts Planes Closed Dist Arith
CHECK_DEADLOCK FALSE
''', 'laws of the derivations, all sizes, sets and order hints')
    t = ck.harness('derive', 'derive.ndjson', ['--n', ck.q(300, 4000)])
    ck.conform('ConfDerive', t, note='the real derivations over their whole domains')


FORMAT_TABLES = os.path.join(vlib.SPEC, 'default_tables.json')


def c17(ck):
    ck.model('MCLoopRest', '''SPECIFICATION Spec
CONSTANT MaxSize = %d
INVARIANTS RoundTrip Once
CHECK_DEADLOCK FALSE
''' % ck.q(9, 24), 'codes round-trip for all values and predictions; every unit belongs to exactly one superblock')
    t = ck.harness('lr', 'lr.ndjson', ['--n', ck.q(150, 1000)])
    tabs = os.path.join(ck.dir, 'tables.json')
    open(tabs, 'w').write('{"none": [16384, 32768, 0]}')
    ck.conform('ConfLoopRest', t, note='restoration units of whole frames and of single units', env={'TABLES': tabs})


def c18(ck):
    ck.model('MCBlock', '''SPECIFICATION Spec
CONSTANT Top = %d
INVARIANTS Seg Steps References Mvs1 Joint Index
CHECK_DEADLOCK FALSE
''' % ck.q(3000, 16384), 'segments, steps, reference pairs, candidate indices and motion vector differences are read back from exactly their elements')
    tabs = FORMAT_TABLES
    t = ck.harness('block', 'block.ndjson', ['--n', ck.q(3000, 40000)])
    ck.conform('ConfBlock', t, note='mode information of one to three blocks per segment', env={'TABLES': tabs})
    t = ck.harness('block', 'copy.ndjson', ['--extra', 'copy', '--n', ck.q(600, 8000)])
    ck.conform('ConfCopy', t, note='vectors of blocks copied from the same frame', env={'TABLES': tabs})


def c19(ck):
    ck.model('MCMvStack', '''SPECIFICATION Spec
CONSTANTS Sizes = {%s} Rich = %s
INVARIANTS Once First Counts Precise
CHECK_DEADLOCK FALSE
''' % ck.q(('3', 'FALSE'), ('3, 4, 6', 'FALSE')), 'candidates are listed once, adjacent ones first, at the frame\'s precision')
    t = ck.harness('block', 'scan.ndjson', ['--extra', 'scan', '--n', ck.q(8000, 60000)])
    ck.conform('ConfMvStack', t, note='motion vector candidates of one to three blocks')


def c20(ck):
    ck.model('MCTile', '''SPECIFICATION Spec
CONSTANTS Seeds = %s
CONSTANT Sides = %s
INVARIANTS Covered Recorded Running
CHECK_DEADLOCK FALSE
''' % ck.q(('{1, 2}', '{1, 5, 8, 13}'), ('{1, 2, 3, 4, 5, 6, 7, 8}', '{1, 3, 5, 8, 13, 17}')), 'whatever the elements say, blocks cover the tile exactly once and stay in range')
    tabs = FORMAT_TABLES
    t = ck.harness('tile', 'tile.ndjson', ['--n', ck.q(700, 2500)])
    ck.conform('ConfTile', t, note='whole tiles', env={'TABLES': tabs})

def c21(ck):
    ck.model('MCTileGroup', '''SPECIFICATION Spec
CONSTANT Rows = %s
CONSTANT Lens = %s
INVARIANTS RoundTrip Aligned Needed
CHECK_DEADLOCK FALSE
''' % ck.q(('{1, 2, 3}', '{1, 2}'), ('{1, 2, 3}', '{1, 2, 257}')), 'reading a tile group inverts writing it')
    t = ck.harness('tile', 'groups.ndjson', ['--extra', 'groups', '--n', ck.q(300, 3000)])
    ck.conform('ConfTileGroup', t, note='tile groups of frames cut into tiles')


def c22(ck):
    ck.model('MCTables', '''SPECIFICATION Spec
INVARIANTS Fine Alike Whole
CHECK_DEADLOCK FALSE
''', 'every table of the format: alphabet, contexts, values a coder can use', env={'TABLES': FORMAT_TABLES})
    t = ck.harness('tile', 'start.ndjson', ['--extra', 'start'])
    ck.conform('ConfTables', t, note='built-in tables and those a new tile encoder starts from', env={'TABLES': FORMAT_TABLES})


def c23(ck):
    cases = ck.walks('MCSession', '''SPECIFICATION Spec
CONSTANT Frames = 2
CONSTANT SeqChoice <- SessionSeq
CONSTANT FrameChoice <- SessionFrame
CONSTANT Layer <- NoLayer
INVARIANTS Emit RoundTrip Laws
CHECK_DEADLOCK FALSE
''', 'cases.ndjson', ck.q(700, 3500), depth=20000, parts=7)
    t = ck.harness('session', 'session.ndjson', ['--in', cases])
    ck.conform('ConfSession', t, note='whole streams: headers and tiles of two intra frames, decoded from the bytes alone', env={'TABLES': FORMAT_TABLES})


CHECKS = {k.upper(): v for k, v in globals().items() if len(k) == 3 and k[0] == 'c' and k[1:].isdigit()}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    ck = Check(prop, tier, int(os.environ.get('VERIF_SEED', '1')))
    try:
        CHECKS[prop](ck)
        return ck.finish()
    except ToolError as e:
        print('ERROR: %s' % e)
        # a violation already established stands even if a later step could not run
        return ck.finish() if ck.violations else 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
