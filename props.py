NOLOG = ['log_print', 'log_print_c', 'log_print_s']
PROPS = {}
PROPS['E01'] = dict(
    bounds='histories of 5 operations (up to 3 events; thorough: 6 and 4, 2 devices, 2 callbacks, delays 0..3) then 4 ticks; 4-operation histories whose callbacks add or cancel; 3-operation histories with every delay 0..2^30-1',
    assumptions=['when two pending events for the same device and callback are due at the same tick, which of them a cancel removes is not constrained', 'delays are non-negative'],
    units=[dict(name='event', harness='event.c', srcs=['event.c'], cases=[0, 1, 2, 3], thorough_cases=[10, 11, 12, 13], noop=NOLOG, reach=['end', 'cancelled', 'readd', 'cb cancel'],
                srcflags=['-Dmalloc=h_malloc', '-Dfree=h_free'], time=200)])
VFS = ['-D%s=h_%s' % (f, f) for f in 'fopen fclose fread fwrite feof ferror fflush fseek ftell rewind fgetc fputc fgets open close read write lseek ftruncate fsync strdup'.split()]
def card(cases, reach, **k):
    return dict(dict(name='card', harness='card.c', srcs=['device/card.c', 'h:vfs.c'], cases=cases, noop=NOLOG + ['fprintf'], reach=reach, srcflags=VFS, bounds=False, time=200), **k)
PROPS['K01'] = dict(bounds='all 256 EBCDIC bytes, all 4096 punch combinations, all 256 ASCII bytes',
    assumptions=['ASCII graphics for which card conventions differ ([ ] \\ ^ ` { } ~ and + in ascii_to_hol) are only required to have a 12-row code'],
    units=[card([0], ['codes'])])
PROPS['K02'] = dict(bounds='decks of up to 6 (thorough 10) bytes of any value, plus lines around the 80-column edge with 7 (11) such bytes; ~raw cards of 1-3 columns',
    assumptions=['lines beginning with ~ other than ~raw/~eor/~eof/~eoi only have to be read without a memory error', 'past column 80 a carriage return occurs only before a newline', 'graphics whose 029 code differs between conventions only need a 12-row code'],
    units=[card([1, 2, 3, 4, 22, 23], ['text', 'special', 'robust'], thorough_cases=[101, 102, 103, 122, 123])])
PROPS['K03'] = dict(bounds='two-card decks: all 80 columns symbolic in binary mode, 3 (thorough 4) + 1 symbolic columns in AUTO, octal and EBCDIC mode; binary/EBCDIC files of every length 1..330',
    assumptions=['in AUTO mode no card begins with ~ (it would be read back as a control card)'],
    units=[card([10, 11, 12, 13, 20, 21], ['round', 'robust'], thorough_cases=[110, 112, 113])])
PROPS['K04'] = dict(bounds='4 (thorough 5) operations of stack/read/blank/empty/load on a hopper; 3 around the 1000-card allocation step; 3 cards around attaching an output file',
    units=[card([30, 31, 32], ['hopper', 'punch'], thorough_cases=[130, 131])])
NOCPU = NOLOG + ['log_mem', 'log_trace', 'strcat', 'sprintf', 'print_inst', 'print_tags', 'fprintf']
def isa(m, cases, reach, **k):
    srcs = ['model2030/cpu2030.c', 'model2030/model2030_ros.c'] if m == 30 else ['model2050/cpu2050.c', 'model2050/model2050_ros.c']
    return dict(dict(name='m%d' % m, harness='isa.c', srcs=srcs + ['device/xlat.c', 'device/cpu.c', 'device/device.c'], cases=cases, noop=NOCPU, reach=reach,
                     cflags=['-DM%d' % m], ros=['model20%d_ros.h' % m], time=200, case_reach=True), **k)
def ops(l, vs=(0,)): return [(o << 4) | v for o in l for v in vs]
FXRR = [0x10, 0x11, 0x12, 0x13, 0x18, 0x19, 0x1a, 0x1b, 0x1e, 0x1f]
FXRX = [0x49, 0x4a, 0x4b, 0x59, 0x5a, 0x5b, 0x5e, 0x5f]
LDST = [0x58, 0x50, 0x40, 0x48, 0x41, 0x42, 0x43]
LOGR = [0x14, 0x15, 0x16, 0x17]
LOGX = [0x54, 0x55, 0x56, 0x57]
SI = [0x91, 0x92, 0x94, 0x95, 0x96, 0x97]
BR = [0x05, 0x06, 0x07, 0x45, 0x46, 0x47]
SH = [0x88, 0x89, 0x8a, 0x8b, 0x8c, 0x8d, 0x8e, 0x8f]
LM = [0x90, 0x98]
LOGS = [0xd4, 0xd5, 0xd6, 0xd7]
MOV = [0xd1, 0xd2, 0xd3]
ISAB = 'one instruction at address 400 or 402 hex from decode to the decode of the next one; all operand values, condition code, program mask, system mask, key and ASCII/problem state symbolic'
ISAA = ['64 KB of storage, no channel, timer or external interruption pending during the instruction', 'wait state and machine-check mask off', 'addresses below 64 K or within one operand of the end of storage']
BND = {
 '01': '5 register pairs; 4 addressing forms, 2 word positions, all 8 alignments, last 4 operand positions before and beyond the end of storage',
 '02': '4 addressing forms, all 8 alignments, end of storage, symbolic storage keys; LM/STM of 1 to 16 registers including wrap-around and a 2 KB key boundary',
 '03': '5 register pairs; 4 addressing forms, alignments, end of storage, symbolic storage keys',
 '04': 'lengths 1 to 11, relative alignments, overlap by -2..+2, 256-byte and 2 KB boundaries, end of storage, symbolic keys',
 '05': 'all 64 amounts on the Model 50; on the Model 30 selected amounts, double shifts with one symbolic operand byte for amounts not a multiple of 4',
 '06': '6 register combinations, 4 addressing forms, 5 even targets within storage, symbolic mask and counts',
 '07': 'key and PSW fields symbolic, alignments, end of storage, problem and supervisor state',
 '08': 'first and second operand of 1 to 3 bytes each, all digit and sign values, overlapping fields with equal right ends',
 '10': 'operand words from a list of corner values with every value of one byte of either operand at any position; register pairs, alignments, end of storage',
 '11': 'field lengths (2,1) (3,2) (5,2) (2,2) (thorough also (3,1) (8,3) (16,8) (3,9) (9,9)), every value of one byte of either operand at any position, the other bytes from a list',
 '12': 'fields of 1, 2, 4, 7 bytes (edit patterns of up to 6, sources of 3) from a list with every value of one byte of either operand; alignments, 2 KB key boundary, end of storage',
 '13': '14 subject instructions of all formats with modified register, mask, length or immediate fields and zero base fields, 3 positions of the subject, odd and end-of-storage subjects; 41 unassigned and 11 privileged operation codes',
 '09': 'field lengths 1, 2, 4, 5, 9 in all combinations, alignments, overlap, 256-byte and 2 KB boundaries',
}
C, PI = 'completed', 'program interruption'
for m, L in ((30, 'A'), (50, 'B')):
    def P(n, cases, reach=(C, PI), bounds=None, assume=(), **k):
        PROPS[L + n] = dict(bounds=ISAB + '; ' + BND[n], assumptions=ISAA + list(assume), units=[isa(m, cases, list(reach), **k)])
    P('01', ops(FXRR) + ops(FXRX, (0, 1, 2)))
    P('02', ops(LDST, (0, 1, 2)) + ops(LM, (0, 1, 2, 3)))
    P('03', ops(LOGR) + ops(LOGX, (0, 1, 2)) + ops(SI, (0, 1, 2)))
    P('04', ops(LOGS + MOV, (0, 1, 2, 3, 5)))
    P('05', ops(SH[:4], (0, 1, 2, 3)) + ops(SH[4:], (0, 1, 2, 3) if m == 50 else (0, 1, 2, 4)))
    P('06', ops(BR, (0,)) + ops([0x86, 0x87]), (C,))
    P('07', ops([4, 10, 0x80, 0x93]) + ops([8, 9, 0x82, 0x80, 0x93], (0, 1, 2)), (C, PI, 'svc'))
    P('08', ops([0xf8, 0xf9, 0xfa, 0xfb], (0, 1)))
    P('09', ops([0xf1, 0xf2, 0xf3], (0, 1, 2, 3)))
    P('10', ops([0x1c, 0x4c], (0, 1, 2, 3, 4)) + ops([0x5c], (0, 1, 2, 3, 4) if m == 50 else (4,)) + ops([0x5c, 0x4c, 0x5d, 0x4e, 0x4f], (5,)) + ops([0x1d], (0, 1, 2, 4)) + ops([0x5d], (0, 1, 2, 4) if m == 50 else (4,)) + ops([0x4e, 0x4f], (0, 4)), symx=['--no-merge'])
    P('11', ops([0xfc, 0xfd], (0, 1)), thorough_cases=ops([0xfc, 0xfd], (8, 9)), symx=['--no-merge'])
    P('12', ops([0xdc, 0xdd, 0xde, 0xdf], (0, 1, 2, 3)), symx=['--no-merge'])
    P('13', ops([0x44], range(16)) + ops([0], (0, 1)), symx=['--no-merge'])
FPRR = [0x20, 0x21, 0x22, 0x23, 0x24, 0x28, 0x30, 0x31, 0x32, 0x33, 0x34, 0x38]
FPA = [0x29, 0x2a, 0x2b, 0x2e, 0x2f, 0x39, 0x3a, 0x3b, 0x3e, 0x3f]
FPB = 'operand pairs from a list of 10 (3 or 4 for loads, stores and storage operands; thorough 10), in either order, with every value of one byte of either operand; all register numbers, 8 alignments, storage end and every program mask'
BND['14'] = FPB + '; unnormalized sums whose only nonzero digit is the guard digit are left open'; BND['15'] = FPB
for m, L in ((50, 'B'),):
    def P(n, cases, **k):
        PROPS[L + n] = dict(bounds=ISAB + '; ' + BND[n], assumptions=ISAA, units=[isa(m, cases, [C, PI], symx=['--no-merge'], **k)])
    P('14', ops(FPRR, (0, 2)) + ops([0x60, 0x68, 0x70, 0x78], (0, 2, 3)) + ops(FPA, (0, 1, 2)) + ops([o + 0x40 for o in FPA], (1, 2, 3)), thorough_cases=ops(FPRR, (8,)) + ops(FPA, (8, 9)) + ops([o + 0x40 for o in FPA], (8, 9)))
    P('15', ops([0x2c, 0x2d, 0x3c, 0x3d], (0, 1, 2)) + ops([0x6c, 0x6d, 0x7c, 0x7d], (1, 2, 3)), thorough_cases=ops([0x2c, 0x2d, 0x3c, 0x3d, 0x6c, 0x6d, 0x7c, 0x7d], (8, 9)))
def io(m, cases, **k):
    return dict(isa(m, cases, ['interruption'], **k), harness='io.c', case_reach=False)
def iocases(v, ts, chs=(0, 1)): return [(v << 4) | (t << 1) | c for v in ([v] if isinstance(v, int) else v) for t in ts for c in chs]
IO30 = iocases(0, range(6)) + iocases(1, (0, 1, 2, 3, 5), (0,)) + iocases(2, range(6)) + iocases(3, range(6)) + iocases(4, range(6)) + iocases(5, range(6)) + iocases(6, range(6)) + iocases(7, range(6))
IOB = 'one device (delay 0 or 7, burst or byte mode on the multiplexer) on one channel; device 00f or 10f; blocks and counts of 1 to 4 bytes at 4 alignments with all data bytes, keys, storage keys, CAW/CCW bytes and ending status symbolic; channel programs of one or two operations (%s) with TIC and status modifier; SIO ended by interruption or TIO'
IOA = ['one device at a time; no error on the interface; the device follows the channel protocol', 'control commands with the data-chaining flag, and contents of the residual count where a program check ends an operation, are not constrained', 'unit status of an operation ended by a protection check is not constrained on the Model 30']
PROPS['A16'] = dict(bounds=IOB % 'command or data chained, any length relation; selector channel: command chained with equal lengths', assumptions=IOA, units=[io(30, IO30 + [0x11], thorough_cases=iocases(9, (0, 1, 2, 3, 5), (0,)))])
IO50 = [c for c in iocases((0, 2, 3, 4, 5, 6, 7), range(6)) if c not in (0x25, 0x2b, 0x55, 0x5b, 0x65, 0x6b)]
PROPS['B16'] = dict(bounds=IOB % 'command chained with equal lengths', assumptions=IOA, units=[io(50, IO50)])
def tape(cases, reach, **k):
    return dict(dict(name='tape', harness='tape.c', srcs=['device/tape.c', 'device/xlat.c', 'h:vfs.c'], cases=cases, noop=NOLOG + ['fprintf'], reach=reach, srcflags=VFS, time=250), **k)
PROPS['T01'] = dict(bounds='5 operations of write (1 or 2 bytes of any value), mark, read and space (complete or stopped early) either way, rewind, re-attach, then the whole tape read both ways; a first record ending within 6 bytes of the 32 KB buffer end followed by 3 operations; foreign tapes of 3 blocks of 0-3 bytes; formats SIMH, E11, P7B', assumptions=['after overwriting a block nothing is claimed about what lies beyond the last written block', 'P7B frames are 7 bits and a record does not start with the mark code 0f'], units=[tape([100, 101, 102, 103, 110, 111, 112, 113, 120, 121, 122, 123, 0, 10, 20, 300, 301, 310, 320], ['end'], symx=['--no-merge'])])
PROPS['T02'] = dict(bounds='files of 0 to 13 bytes of any value, 4 operations, host reads and writes failing from any of them on', assumptions=['an in-memory file stands for the host file system'], units=[tape([200, 210, 220, 201, 211, 221], ['robust'], symx=['--no-merge'])])
def conf(name, cases, reach, **k):
    return dict(dict(name=name, harness='conf.c', srcs=['conf.c', 'logger.c', 'h:vfs.c'], cases=cases, noop=['fprintf', 'vfprintf'], reach=reach, srcflags=VFS, time=250, nflags=['-mllvm', '-asan-globals=0']), **k)
PROPS['C01'] = dict(bounds='lines generated from the documented grammar with symbolic letters, digits, separators and values (names and addresses up to 4 digits, 1 option of up to 2+3 characters or 2 of 1+1); words of 16-23 and 1018-1025 characters; files of up to 3 lines; up to 2 log levels; arbitrary lines: up to 7 bytes of any value after each of 7 beginnings (thorough 9)', assumptions=['host strings are in the C locale'], units=[
    conf('conf', [0, 1, 3], ['names', 'no address', 'unknown', 'options', 'file'], thorough_cases=[]),
    conf('confn', [2, 4, 5, 6, 70, 71, 72, 73, 64, 75, 76], ['limits', 'loglevel', 'values', 'robust', 'options'], symx=["--no-merge"], thorough_cases=[90, 91, 92, 93, 74, 95, 96])])
PROPS['D01'] = dict(bounds='5 (thorough 6) add/remove operations on 3 devices over two neighbouring channels of 0 to 7 with symbolic unit addresses, 2 lookups with symbolic address and mask; 5 (6) add/remove/step operations on 3 drives', assumptions=['a device is added to one channel at a time'],
    units=[dict(name='registry', harness='registry.c', srcs=['device/device.c'], cases=[0, 1], thorough_cases=[10, 11], noop=NOLOG + ['log_device', 'sprintf', 'strcat'], reach=['found', 'absent', 'removed', 'disks'], time=200, symx=['--no-merge'])])

DISK = ['open', 'close', 'read', 'write', 'lseek', 'strdup']
def dsk(name, cases, reach, **k):
    return dict(dict(name=name, harness='disk.c', srcs=['model2844/model2844.c', 'model2844/model2844_ros.c', 'device/dasd.c', 'device/device.c', 'device/xlat.c', 'event.c', 'h:vfs.c'], cases=cases, noop=NOLOG + ['fprintf', 'sprintf', 'strcat', 'print_tags'], reach=reach, srcflags=VFS, cflags=['-DD2844'], ros=['model2844_ros.h'], time=250, symx=['--no-merge']), **k)
def _dk(sc, g, tc=1, th=3, x=0): return sc + g * 16 + tc * 256 + th * 1024 + x * 32768
PROPS['D02'] = dict(bounds='a 3-cylinder 2314 image; one track with record zero and two records, key lengths 0 to 4 and data lengths 1 to 6 in 8 combinations (quick 5), all key and data bytes on the track and all bytes written symbolic; tracks on cylinders 0 to 2, heads 0 to 19; seek addresses symbolic in all 6 bytes (cylinder 0-2 or above 198), file masks symbolic, search keys symbolic; up to 5 commands in a chain and 3 channel programs',
    assumptions=['one drive; the channel answers within one bus cycle of two disk steps', 'fields of exactly two bytes are read but not written (the channel of the harness overruns there)', 'the 2314 on the 2844; the 2311 on the 2841 is not decided (its microcode does not complete a search in this tree)'],
    units=[dsk('disk', [_dk(0, 0), _dk(0, 1), _dk(0, 6, 2, 17), _dk(1, 1), _dk(1, 2, 0, 19), _dk(2, 6, 0, 16), _dk(2, 1), _dk(3, 1), _dk(3, 6, 2, 0), _dk(4, 4), _dk(5, 0), _dk(6, 6), _dk(6, 6, x=1), _dk(7, 1), _dk(7, 6, 0, 18, 1)], ['read', 'written', 'formatted', 'found the first', 'found the second', 'not found', 'rejected', 'arrived', 'permitted', 'refused', 'new track'],
        thorough_cases=[_dk(0, g, t, h) for g in range(8) for t, h in ((0, 0), (1, 15), (2, 19))] + [_dk(1, g, 1, h) for g in (1, 2, 3, 4, 6, 7) for h in (1, 17)] + [_dk(2, g, 0, h) for g in (1, 2, 3, 6, 7) for h in (2, 16)] + [_dk(3, g, t, 5) for g in (1, 2, 3, 4, 5, 6) for t in (0, 2)] + [_dk(4, g) for g in (0, 4, 5, 6)] + [_dk(5, 0)] + [_dk(6, g, 1, 3, x) for g in (1, 3, 4, 6) for x in (0, 1)] + [_dk(7, g, t, 18, x) for g in (1, 2, 3, 4, 5, 6) for t in (0, 2) for x in (0, 1)])])

PROPS['S01'] = dict(bounds='decks of 1 to 4 cards with any holes in columns 0, 1, 40 and 79 of each card (three valid fixed characters patterns elsewhere), 7 programs of up to 5 reads, punches and feeds of 1 to 90 columns into either stacker with the first 3 bytes punched symbolic, end-of-file key on or off, byte-multiplexed and burst connection; any unknown command byte',
    assumptions=['the channel answers every request within one bus cycle; it suppresses only status it has stacked', 'where a read ends early the column behind the last one transferred holds a valid character', 'the card at the read station after unit exception stays there'], units=[dict(name='card1442', harness='card1442.c', srcs=['model1442/model1442.c', 'device/card.c', 'device/device.c', 'device/xlat.c', 'event.c'], cases=[20, 21, 121, 130, 131, 220, 230, 231, 310, 320, 330, 340, 341, 430, 431, 520, 530, 630, 640, 1530, 1020, 1021, 1121, 1130, 1231, 1331, 1340, 1430, 10130, 11021, 11130, 10341, 21220], noop=NOLOG + ['fprintf', 'sprintf', 'strcat'], reach=['read', 'punched', 'punched and fed', 'fed', 'data check', 'last card', 'intervention', 'busy', 'rejected', 'bus out'], bounds=False, time=250, symx=['--no-merge'])])
PROPS['S02'] = dict(bounds='lines of 1 to 125 characters of which the first 1 to 3 have any value, each spacing 0 to 3, each channel 1 to 12, starting at lines 0, 5, 6, 30, 59, 63, 64 and 65 of the form, programs of up to 4 operations, any unknown command byte, bad parity on commands and characters, status stacked up to twice', assumptions=['the printer is on a byte-multiplexed connection', 'ending status while the paper moves over channel 9 or 12 is not constrained', 'the image of a special character is not constrained where it is not in the EBCDIC standard set'], units=[dict(name='prt1443', harness='prt1443.c', srcs=['model1443/model1443.c', 'device/device.c', 'device/xlat.c', 'event.c', 'h:vfs.c'], cases=[0, 3, 104, 105, 106, 107, 200, 201, 202, 204, 205, 207, 300, 400, 500, 600, 1000, 10000, 11000, 21106, 10205], noop=NOLOG + ['fprintf', 'sprintf', 'strcat'], reach=['printed', 'moved', 'rejected', 'intervention', 'busy', 'bus out'], srcflags=VFS, time=250, symx=['--no-merge'])])

PROPS['S03'] = dict(bounds='writes of 2 to 12 characters of which up to 3 are symbolic, reads of up to 20 characters with up to 5 bytes from the terminal symbolic in one or two pieces, programs of up to 4 commands, any unknown command byte, byte-multiplexed and burst connection', assumptions=['the channel answers within one bus cycle', 'the terminal thread gets round between two bus cycles when there is output; the two threads are interleaved at these points only', 'the telnet negotiation sent at connect is not constrained', 'form feed, request, cancel and return keys are at fixed positions', 'characters with the high bit set may be read as any character'], units=[dict(name='cons1052', harness='cons1052.c', srcs=['device/device.c', 'device/xlat.c', 'event.c'], cases=[0, 1, 2, 3, 4, 5, 15, 6, 7, 8, 100, 104], cflags=['-I' + __file__.rsplit('/', 1)[0] + '/harness/stub'], hang=200000000, noop=NOLOG + ['fprintf', 'sprintf', 'strcat', 'perror', 'print_tags'], reach=['written', 'read', 'rejected', 'attention', 'telnet command', 'escaped', 'busy', 'bus out'], time=250, symx=['--no-merge'])])

# in the small units a path this long is a loop without end (reported when the native replay does not end either)
for _p in ('E01', 'K01', 'K02', 'K03', 'K04', 'T01', 'T02', 'C01', 'D01', 'S01', 'S02', 'S03'):
    for _u in PROPS[_p]['units']: _u.setdefault('hang', 30000000)
