"""The checks, one per property."""
import vf
from vf import ASAN, TSAN, PLAIN, GCC, CLANG

CHECKS = {}

SIM_RULE = ('Each case is one whole session: a randomly configured real sender (or, in about one case of eight, an independent reference sender) and a real receiver, '
            'connected by a channel that loses (independently, in bursts, in outages), duplicates, delays and reorders packets and acknowledgements, with settings changed on the way; '
            'one case in four is a scripted family (dependent repairs, stale repairs, permuted arrivals, holes in the window), and a few have block numbers more than 65535 apart. '
            'Every call is observed and compared with a reference model. A case is non-trivial if data was delivered and packets were lost, rebuilt or acknowledged; '
            'distinct means a different hash of the whole transcript of packets, acknowledgements and deliveries.')
SIM_ASSUME = ['The application respects the documented preconditions: non-empty blocks of at most 65535 bytes, multiples of the field word for fields 16 and 32, rate and window at least 1.',
              'Time is virtual: steady_clock is interposed, so schedules are decided on exact logical time.']


def sim_exe():
    return vf.build('sim', ['sim.cc'], ASAN)


def sim(prop, q, t, title, need, level_note, technique, pre=None):
    def run(ctx):
        vf.run_chunks(prop, sim_exe(), ctx.n(q, t), ctx, timeout=ctx.n(240, 3000))
        if pre: pre(ctx)
        ctx.need(**need)
    CHECKS[prop] = dict(run=run, level='exploration', rule=SIM_RULE, technique=technique, level_note=level_note, assumptions=SIM_ASSUME)


NOTE = ('Held on the executions explored (the evidence file counts them), not on all. Trusts the reference model and field arithmetic in /verif/harness, '
        'and the sanitizers; libgf_complete itself is only checked through its results and the bounds of its region operations.')

sim('C01', 3200, 120000, '', dict(deliveries=20000, rebuilt=2000, full_decodings=100), NOTE, 'trace monitor: every delivery compared with the set of submitted blocks, under ASan/UBSan and a hostile channel')
sim('C02', 3200, 120000, '', dict(deliveries=20000, rebuilt=2000, packets_duplicated=500), NOTE, 'trace monitor: exactly-once accounting of deliveries under duplication, delay and reordering')
sim('C03', 3200, 120000, '', dict(deliveries=20000, cases_in_order=500), NOTE, 'online monitor of the delivery order against the horizon shown by received repairs')
sim('C04', 3200, 120000, '', dict(deliveries=20000, packets_delivered=20000), NOTE, 'online monitor: reference receiver model predicts the call in which each arrived block must be handed over')
sim('C05', 3200, 120000, '', dict(rebuilt=2000, full_decodings=100, rebuilt_by_substitution=500, dependent_repairs=50), NOTE, 'online monitor: Gaussian elimination over held repairs in an independent field predicts what must be rebuilt')
sim('C06', 3000, 100000, '', dict(acks_checked=3000), NOTE, 'online monitor: acknowledgement contents against the reference receiver model')
sim('C07', 3200, 120000, '', dict(acks_delivered=2000, sender_calls_checked=20000, setting_changes=300), NOTE, 'online monitor: sender window against a reference model after every call')
sim('C08', 3200, 120000, '', dict(sources_checked=10000, repairs_checked=5000), NOTE, 'every emitted packet decoded by an independent parser and recomputed with an independent field implementation')
sim('C09', 3200, 120000, '', dict(sender_calls_checked=20000, adaptive_updates=300, forced_repairs=1000), NOTE, 'online monitor: packet kinds and rate against a reference schedule')
sim('C16', 3200, 120000, '', dict(auto_acks=1000, acks_requested=1000), NOTE, 'online monitor of the acknowledgement schedule under a virtual clock')
sim('C17', 3200, 120000, '', dict(sender_calls_checked=20000, receiver_calls_checked=20000), NOTE, 'conservation monitor: every public counter compared with the observed events after every call')
sim('C24', 3200, 120000, '', dict(heals=1000, heal_blocks_outstanding=5000), NOTE, 'bounded-progress monitor: fault-free suffix after a random faulty prefix; completion required as soon as the received repairs have full rank')


# ------------------------------------------------------------------------------ the other harnesses
def add(prop, run, rule, technique, level='exploration', note=NOTE, assumptions=()):
    CHECKS[prop] = dict(run=run, level=level, rule=rule, technique=technique, level_note=note, assumptions=list(assumptions))


def valgrind(prop, src, ncases, ctx, tag):
    """The same harness, uninstrumented, under memcheck: uninitialised bytes that ASan cannot see."""
    exe = vf.build('vg-' + src[:-3], [src], ['-O1', '-DVF_VALGRIND'], gfwrap=False)
    vf.run_chunks(prop, exe, ncases, ctx, tag=tag, timeout=ctx.n(300, 3000), wrapper=['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--track-origins=no', '--leak-check=no'])


def fuzz(ctx, runs=400000):
    """Coverage-guided packet programs (libFuzzer), one process per core, sharing nothing but the seeds."""
    import concurrent.futures as cf, os, re, shutil, tempfile
    flags = ['-O1', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer', '-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=all']
    exe = vf.build('fuzz', ['fuzz.cc'], flags, cc=CLANG, link=['-Wl,--wrap=gf_init_easy'])
    tmp = tempfile.mkdtemp(prefix='vf-fuzz-')

    def one(i):
        d = os.path.join(tmp, str(i)); os.makedirs(d)
        return i, d, vf.sh([exe, '-runs=%d' % runs, '-seed=%d' % (ctx.seed * 100 + i + 1), '-max_len=%d' % (300, 1000)[i % 2], '-rss_limit_mb=3500', '-artifact_prefix=%s/crash-' % tmp, d], timeout=3000, env=vf.SAN_ENV)
    try:
        with cf.ThreadPoolExecutor(vf.JOBS) as ex: res = list(ex.map(one, range(vf.JOBS)))
        for i, d, (rc, out, err, to) in res:
            m = re.findall(r'cov: (\d+) ft: (\d+) corp: (\d+)', err)
            if m: ctx.result.counters['max_fuzz_edges'] = max(ctx.result.counters.get('max_fuzz_edges', 0), int(m[-1][0])); ctx.result.counters['fuzz_corpus'] = ctx.result.counters.get('fuzz_corpus', 0) + int(m[-1][2])
            n = re.findall(r'#(\d+)\s', err); ctx.result.counters['fuzz_runs'] = ctx.result.counters.get('fuzz_runs', 0) + (int(n[-1]) if n else 0)
            line = vf.report_line(out, err)
            if rc and not to and line:
                art = sorted(p for p in os.listdir(tmp) if p.startswith('crash-')); keep = ''
                if art:
                    os.makedirs(vf.REPLAYS, exist_ok=True); keep = os.path.join(vf.REPLAYS, 'C10-' + art[0]); shutil.copy(os.path.join(tmp, art[0]), keep)
                raise vf.Violation('coverage-guided input: ' + line, vf.write_replay('C10', [exe, keep], line + '\n' + err[-3000:], vf.SAN_ENV))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# Each exception leaves frames on ASan's fake stack, which slows everything down.
NO_FAKE_STACK = {'ASAN_OPTIONS': vf.SAN_ENV['ASAN_OPTIONS'].replace('use_after_return=1', 'use_after_return=0')}


def c10(ctx):
    exe = vf.build('hostile', ['hostile.cc'], ASAN)
    vf.run_chunks('C10', exe, ctx.n(600, 20000), ctx, tag='f', timeout=ctx.n(300, 3000))
    vf.run_chunks('C10', exe, ctx.n(6400, 160000), ctx, tag='h', timeout=ctx.n(300, 3000), first=ctx.n(600, 20000), env=NO_FAKE_STACK)
    vg = vf.Ctx('C10', ctx.tier, ctx.seed)
    valgrind('C10', 'hostile.cc', ctx.n(48, 2000), vg, 'v')
    ctx.result.counters['valgrind_cases'] = vg.result.evaluations
    if not ctx.quick: fuzz(ctx)
    ctx.need(hostile_accepted=5000, hostile_overflow_errors=1000, deliveries=1000)


add('C10', c10, 'Each case is a sender and a receiver in the middle of legitimate traffic, given random, mutated and crafted packets (lengths, identifier lists, encoded sizes, types) directly and through dispatch; '
    'a sample of the cases also runs under valgrind memcheck. Any sanitizer report, guarded-region overrun, undocumented exception or abort is a violation. Distinct: hash of the packets and results of a case.',
    'ASan/UBSan and bounds-checked field operations plus valgrind memcheck, under structure-aware hostile packets',
    assumptions=['Identifier lists that expand to more than a few thousand entries are not generated (time, not safety).', 'Running out of memory is C14.'])


def c11(ctx):
    vf.run_chunks('C11', vf.build('hostile', ['hostile.cc'], ASAN), ctx.n(1800, 60000), ctx, timeout=ctx.n(300, 3000), env=NO_FAKE_STACK)


add('C11', c11, 'Each case runs two identical pairs of endpoints; one is additionally given packets that must be refused. The kind of each refusal is checked against an independent parser, then all later output of the twins is compared. Distinct: hash of the transcript.',
    'twin-execution monitor: the endpoint that was given refused packets against one that was not')


def c12(ctx):
    vf.run_chunks('C12', vf.build('wire', ['wire.cc'], ASAN), ctx.n(3000, 150000), ctx, tag='w', timeout=ctx.n(300, 3000))
    vf.run_chunks('C12', sim_exe(), ctx.n(600, 30000), ctx, tag='s', timeout=ctx.n(300, 3000))


add('C12', c12, 'Random acknowledgements, repairs and sources are written and read back through the packetizer and an independent parser, with extra bytes and truncations; whole sessions check the chunking and the end-of-packet calls. Distinct: hash of the written packets or of the session transcript.',
    'differential monitor of the packetizer against an independent implementation of the format')


def c13(ctx):
    try: exe = vf.build('capi', ['capi.cc'], ASAN, c_api=True, extra_flags=['-DVF_CHECK_ERROR'])
    except vf.BuildError: exe = vf.build('capi', ['capi.cc'], ASAN, c_api=True)
    vf.run_chunks('C13', exe, ctx.n(1600, 60000), ctx, timeout=ctx.n(300, 3000))


add('C13', c13, 'The same random calls (settings, data, valid and invalid packets) drive a pair of C objects and a pair of C++ objects side by side; every packet, delivery, count, setting and error is compared. Distinct: hash of the transcript.',
    'differential monitor: C objects against C++ objects in lock step, under ASan/UBSan')

WRAPS = ['-Wl,--wrap=' + f for f in 'malloc calloc realloc free posix_memalign aligned_alloc gf_init_easy gf_free'.split()]


def c14(ctx):
    exe = vf.build('oom', ['oom.cc'], ASAN, c_api=True, link=WRAPS, gfwrap=False)
    vf.run_chunks('C14', exe, ctx.n(16, 400), ctx, tag='f', chunk=1, timeout=ctx.n(300, 3000))
    vf.run_chunks('C14', exe, ctx.n(144, 4000), ctx, tag='o', chunk=1, timeout=ctx.n(300, 3000), first=ctx.n(16, 400), env=NO_FAKE_STACK)


add('C14', c14, 'Each case is a script of C calls; every allocation of every call is made to fail, once alone and once with all that follow in the same call, and the script goes on. Distinct: hash of script and fault point outcomes.',
    'fault enumeration: every allocation of every call in each script fails, under ASan and a live-allocation monitor', level='fault_enumeration',
    note='Complete over the allocation points of the scripts run; the scripts themselves are random. Failures inside libgf_complete are modelled as gf_init_easy failing.')


def c15(ctx):
    exe = vf.build('threads', ['threads.cc'], TSAN)
    vf.run_chunks('C15', exe, ctx.n(320, 8000), ctx, timeout=ctx.n(300, 3000), workers=4)
    # without optimisation no access is merged or removed before ThreadSanitizer sees it
    o0 = vf.Ctx('C15', ctx.tier, ctx.seed)
    vf.run_chunks('C15', vf.build('threads', ['threads.cc'], ['-O0', '-fsanitize=thread']), ctx.n(64, 1600), o0, timeout=ctx.n(300, 3000), workers=4)
    ctx.result.counters['unoptimised_cases'] = o0.result.evaluations


add('C15', c15, 'Each case runs several independent sender/receiver pairs interleaved in one thread, nested inside each other\'s callbacks, or on threads of their own, and compares each transcript with the one of the pair run alone. Distinct: hash of the transcripts.',
    'ThreadSanitizer (with region operations of libgf_complete annotated) and comparison with solo transcripts')


def c18(ctx):
    D = ['-DNTC_DUMP_PACKETS=', '-DNTC_DUMP_PACKETS_FILE="vf_dump.bin"']
    exe = vf.build('dump', ['dump.cc'], ASAN, extra_flags=D)
    try: tool = vf.build('replay', [vf.REPO + '/tools/replay.cc'], ASAN, extra_flags=D + ['-include', 'cstdint', '-include', 'netcode/decoder.hh'], gfwrap=False, refgf=False)
    except vf.BuildError as e:
        tool = ''; ctx.result.notes.append('the replay tool could not be built so that it records: ' + str(e)[-300:])
    vf.run_chunks('C18', exe, ctx.n(800, 30000), ctx, extra=tool, timeout=ctx.n(300, 3000))
    ctx.need(packets_recorded=10000)


add('C18', c18, 'Each case records a random stream (contents chosen to upset text handling, sizes up to a full datagram, refused packets among them), reads it back, replays it into a fresh receiver and, for field 8, through the replay tool built so that its receiver records too. Distinct: hash of the deliveries.',
    'record/replay monitor: recording, reading back and replay tool compared with what was given')


def c19(ctx):
    vf.run_chunks('C19', vf.build('pkt', ['pkt.cc'], ASAN), ctx.n(8000, 400000), ctx, tag='p', timeout=ctx.n(300, 3000))
    vf.run_chunks('C19', sim_exe(), ctx.n(800, 30000), ctx, tag='s', timeout=ctx.n(300, 3000))


add('C19', c19, 'Random operation sequences on packets next to std::vector<char> as the model; whole sessions check the alignment of every delivery. Distinct: hash of the operation sequence or of the transcript.',
    'model-based monitor of packet against std::vector, and alignment monitor on deliveries, under ASan/UBSan')


def c20(ctx):
    exe = vf.build('mem', ['mem.cc'], PLAIN, link=WRAPS, gfwrap=False)
    vf.run_chunks('C20', exe, ctx.n(400, 4000), ctx, timeout=ctx.n(300, 3000))
    ctx.need(growth_checks=2000, destructions=2000)


add('C20', c20, 'Each case is a stream of identical epochs (losses, duplicates, delays, stale and refused packets) ended by quiescent points; the bytes and allocations held by each side there, and the peak inside the epochs, must not grow with the number of epochs, and destruction must release everything. Distinct: hash of the measured sizes.',
    'allocation monitor: live bytes and objects per side at the quiescent points of long streams',
    assumptions=['A growth of less than 2 KB plus two blocks over three quarters of the epochs is attributed to retained capacity.'])


def c21(ctx):
    import nettools
    proxy = vf.build('proxy', [vf.REPO + '/tools/lossy_proxy.cc', 'resolv.cc'], ASAN, gfwrap=False, refgf=False, link=['-Wl,--wrap=getaddrinfo'])
    fwd = vf.build('fwd', [vf.REPO + '/tools/source_forwarder.cc', 'resolv.cc'], ASAN, gfwrap=False, refgf=False, link=['-Wl,--wrap=getaddrinfo'])
    nettools.run(ctx, proxy, fwd, ctx.n(250, 6000))
    ctx.need(proxy_forwarded=500, proxy_lost=200, forwarder_sources_forwarded=500)


add('C21', c21, 'Each case starts one of the tools as a real process and sends it datagrams over loopback (sizes up to 65507 bytes, malformed and foreign packets), comparing every datagram that comes out. Distinct: hash of the sequence of datagrams.',
    'black-box monitor of the tool processes (built with ASan/UBSan) on loopback sockets',
    assumptions=['Empty datagrams, sent now and then between the others, carry nothing to forward and use no line of the loss file.', 'A failure is reported only if the same case fails twice in fresh processes and the kernel dropped nothing.'])


def c22(ctx):
    vf.run_chunks('C22', vf.build('gf', ['gf.cc'], ASAN), ctx.n(1600, 60000), ctx, timeout=ctx.n(300, 3000))


add('C22', c22, 'Field operations (all operands for fields 4 and 8, random and boundary ones above), region operations of all lengths and offsets, and inversions of random, structured and singular matrices, against plain polynomial arithmetic. Distinct: hash of the operands.',
    'differential monitor against an independent field implementation; region bounds checked')


def c23(ctx):
    n = ctx.n(1600, 60000); asan = vf.SAN_ENV['ASAN_OPTIONS']
    variants = [('zero', ASAN, ['-ftrivial-auto-var-init=zero'], {'ASAN_OPTIONS': asan + ':max_malloc_fill_size=1000000:malloc_fill_byte=0'}),
                ('ones', ASAN, ['-ftrivial-auto-var-init=pattern'], {'ASAN_OPTIONS': asan + ':max_malloc_fill_size=1000000:malloc_fill_byte=255:max_free_fill_size=1000000:free_fill_byte=85'}),
                ('heap', PLAIN, [], {'GLIBC_TUNABLES': 'glibc.malloc.perturb=90'})]
    seen = []
    for name, flags, extra, env in variants:
        exe = vf.build('det', ['det.cc'], flags, extra_flags=extra, gfwrap=flags is ASAN)
        sub = vf.Ctx('C23', ctx.tier, ctx.seed)
        vf.run_chunks('C23', exe, n, sub, timeout=ctx.n(300, 3000), env=env)
        hs = {k: v for k, v in sub.result.counters.items() if k.startswith('hash_')}
        for k in hs: del sub.result.counters[k]
        seen.append((name, exe, env, hs))
        if not ctx.result.evaluations: ctx.result.merge_result(sub.result)
        ctx.result.counters['transcripts_' + name] = len(hs)
    a = seen[0]
    for b in seen[1:]:
        for k in sorted(a[3], key=lambda x: int(x[5:])):
            if a[3][k] != b[3].get(k):
                case = k[5:]; args = '--prop C23 --seed %d --tier %s --case %s -v' % (ctx.seed, ctx.tier, case)
                env = lambda e: ' '.join("%s='%s'" % x for x in {**vf.SAN_ENV, **e}.items())
                cmd = 'd=$(mktemp -d); env %s %s %s >$d/a; env %s %s %s >$d/b; diff $d/a $d/b | head -20 | cut -c1-300; cmp -s $d/a $d/b; r=$?; rm -r $d; exit $r' % (env(a[2]), a[1], args, env(b[2]), b[1], args)
                rc, out, err, to = vf.sh(['sh', '-c', cmd], timeout=120)
                raise vf.Violation('case %s: the transcript depends on what was in memory (%s against %s): %s' % (case, a[0], b[0], out[:600]), vf.write_replay('C23', ['sh', '-c', cmd], 'memory filled differently gives other output\n' + out))
    vg = vf.Ctx('C23', ctx.tier, ctx.seed)
    valgrind('C23', 'det.cc', ctx.n(160, 4000), vg, 'v')
    ctx.result.counters['valgrind_cases'] = vg.result.evaluations
    ctx.result.counters['valgrind_bytes_checked'] = vg.result.counters.get('bytes_out', 0)


add('C23', c23, 'Each case is a session with legitimate and hostile packets whose whole transcript (bytes emitted and delivered, results, counters) is compared between two runs in one process (the heap and stack dirtied in between) and three builds that fill fresh heap and stack memory differently; a sample runs under valgrind with every outgoing byte checked for definedness. Distinct: hash of the transcript.',
    'differential execution under different memory fills, and valgrind definedness checks on every outgoing byte')
