"""Texts of the properties and of the manifest entries.  mk.py writes
properties.jsonl and MANIFEST.json from here; props.py holds the machinery."""
D = {}
NA = {}
def prop(id, title, statement, over, text, why, files, mech, note='', level='model_checking', technique='symbolic execution of the LLVM IR of the real C code, assertions decided by Z3', **anch):
    D[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, level=level, technique=technique, anch=anch)

prop('E01', 'Timed events fire exactly once, in due order, unless cancelled',
     'A callback scheduled for a device with a delay runs exactly once, that many ticks later (a zero delay runs it at once), with the arguments it was given; callbacks due at different ticks run in the order of their due times. Cancelling a pending callback removes that one and leaves the due times of all others unchanged. This also holds when callbacks themselves schedule or cancel events.',
     ['histories', 'schedules'], 'every history of schedule, cancel and tick operations over several devices, callbacks and delays, including ones issued from inside callbacks',
     'The tests of the scheduler run a few fixed histories; list surgery faults appear only for particular orders of due times and cancellations.',
     ['src/event.c'], [dict(name='relative-time event list: add_event, cancel_event, advance', where='src/event.c')],
     state=[dict(name='event list', meaning='pending events, each with its delay relative to its predecessor', where='src/event.c')], observe_at=['callback invocations'])
prop('K01', 'Punched-card code translations agree with each other and with the 029 keypunch',
     'Translating any EBCDIC byte to its punch combination and back gives the same byte, and every punch combination either has exactly one EBCDIC byte or is reported as invalid. Letters, digits and the agreed special characters of ASCII translate to their 029 keypunch codes, lower case to upper case code where the reader folds it, and a character without a card code is reported as invalid.',
     ['inputs'], 'all 256 EBCDIC bytes, all 4096 twelve-row punch combinations, all 256 character codes',
     'Tests look at a handful of characters; a wrong table entry or an index outside a table shows only for the one code concerned.',
     ['src/device/card.c'], [dict(name='ascii_to_hol, hol_to_ebcdic, ebcdic_to_hol_table', where='src/device/card.c')])
prop('K02', 'Every text card deck is read without memory error and as the cards it describes',
     'Reading a text file as a card deck yields one 80-column card per line with each character translated to its card code, blank-filled to 80 columns, lines longer than 80 columns truncated, and end-of-record, end-of-file, end-of-tape and octal lines recognised. No file content whatever makes the reader access memory outside its buffers or read cards without end.',
     ['inputs'], 'every byte content of a deck file up to the stated length, plus the same around the 80-column limit',
     'Only well-formed sample decks are tested; malformed, truncated and binary files are unbounded in number.',
     ['src/device/card.c'], [dict(name='read_card, parse_card, load_deck', where='src/device/card.c')])
prop('K03', 'A deck punched to a file and loaded again is the same deck',
     'Cards written to an output deck file in any of the supported formats and read back in the same or automatic format are the same cards in the same order, column for column, wherever the format can represent them. Incomplete or oversized files are read without memory errors.',
     ['inputs', 'histories'], 'card images with symbolic columns in automatic, text, octal, binary and EBCDIC format; binary files of every length',
     'Round trips are tested on a few sample images only; format selection depends on every column.',
     ['src/device/card.c'], [dict(name='save_card, read_card, sim card formats', where='src/device/card.c')])
prop('K04', 'A card hopper is first in, first out whatever the order of operations',
     'Whatever the sequence of loading decks, adding blank cards, stacking, reading and emptying, cards leave a hopper in the order they entered, none is lost, duplicated or altered, and the reported count is the number waiting. Cards stacked on an attached file reach that file.',
     ['histories'], 'every sequence of stack, read, blank, empty and load operations of the stated length, including the step at which the hopper storage grows',
     'The tests follow one load-then-read scenario; index faults need particular interleavings of emptying, stacking and growing.',
     ['src/device/card.c'], [dict(name='stack_card, read_card, empty_cards, blank_deck', where='src/device/card.c')])

prop('T01', 'A tape image holds the records and marks that were written to it',
     'Whatever the sequence of writing records and tape marks, reading or spacing forward and backward (also stopping inside a record), rewinding and re-attaching, reading a tape delivers exactly the records and marks written, byte for byte and in order, and load point and end of tape are reported where they are. Tapes produced by other programs in the SIMH, E11 and P7B formats read the same way, and a tape without a write ring is never altered.',
     ['histories', 'inputs'], 'every sequence of tape operations of the stated length with every data byte, in all three formats, also across the 32 KB buffer limit',
     'Tests run fixed write-rewind-read scenarios; positions after partial reads, direction changes, overwrites and buffer refills are combinations they do not visit.',
     ['src/device/tape.c'], [dict(name='tape_read_forw, tape_read_back, tape_write_start, tape_write_mark, tape_finish_rec', where='src/device/tape.c'), dict(name='32 KB window over the image file', where='src/device/tape.c')],
     state=[dict(name='tape position', meaning='logical position and buffer window of an attached image', where='src/device/tape.c')])
prop('T02', 'No tape file or host failure corrupts the emulator or the rest of a tape',
     'Attaching and operating on a file of any content as a tape never accesses memory outside the tape buffer and every operation ends. A host read or write that fails is reported and, once the failure has gone, leaves the contents readable as before.',
     ['inputs', 'fault_sequences'], 'every file content of the stated sizes, every operation sequence, host I/O failing from any operation on',
     'Malformed images and failing disks are not part of the tests.',
     ['src/device/tape.c'], [dict(name='record length and buffer position handling', where='src/device/tape.c')])
prop('C01', 'Every configuration line creates the device it describes and nothing else',
     'A configuration line with device name, model letter, sub-model, channel, address and options delivers exactly those values to the one device it names; comments and blank lines do nothing, unknown names, missing addresses and unknown log levels are refused, and nothing carries over from one line to the next. No line, however malformed or long, causes a memory error or is read without end.',
     ['inputs'], 'every line the documented grammar generates within the stated sizes and every arbitrary line of the stated length',
     'The tests have a handful of well-formed lines.',
     ['src/conf.c'], [dict(name='load_line, get_model, get_option, get_integer, get_index', where='src/conf.c'), dict(name='device table section .devlist', where='src/conf.h')])

M = {'A': ('Model 30', 'src/model2030/cpu2030.c', 'src/model2030/ccros2030.txt', 'cycle_2030'), 'B': ('Model 50', 'src/model2050/cpu2050.c', 'src/model2050/ros.txt', 'cycle_2050')}
G = {
 '01': ('fixed-point load, add, subtract and compare', 'the instructions LR LTR LCR LPR LNR CR AR SR ALR SLR (register) and C A S AL SL CH AH SH (storage) leave the result, condition code and fixed-point-overflow interruption that the System/360 Principles of Operation define, for all operand values, address forms and alignments', 'register-register and register-storage fixed-point add, subtract and compare'),
 '02': ('loads, stores and multiple-register moves', 'the instructions L LH LA IC ST STH STC LM and STM move exactly the addressed bytes between storage and registers, and misaligned, out-of-range or key-protected operands cause the defined specification, addressing or protection interruption without changing protected storage', 'loads and stores'),
 '03': ('logical instructions', 'NR OR XR CLR, N O X CL and TM MVI NI CLI OI XI produce the defined result and condition code for all operand and mask values, and the defined interruptions for protected or missing storage', 'logical and immediate instructions'),
 '04': ('storage-to-storage moves and logical operations', 'MVC MVN MVZ NC OC XC and CLC process their operands byte by byte from left to right, also when the fields overlap, change no byte outside the first operand, set the defined condition code, and report fields that are protected or extend beyond storage', 'storage-to-storage logical instructions'),
 '05': ('shifts', 'SRL SLL SRA SLA SRDL SLDL SRDA and SLDA shift by the low six bits of the computed address and set the defined condition code and overflow interruption; an odd register for a double shift is a specification exception', 'shift instructions'),
 '06': ('branches and loop instructions', 'BALR BAL BCR BC BCTR BCT BXH and BXLE branch exactly when the condition mask, count or comparison says so, to the address computed before any register changes, and store the defined link information', 'branch instructions'),
 '07': ('program status, storage keys and supervisor calls', 'SPM SSM LPSW SSK ISK TS and SVC change exactly the status fields, keys and storage they are defined to change, privileged ones in the problem state are refused with a privileged-operation interruption, and a supervisor call stores the complete old program status and loads the new one', 'system control instructions'),
 '08': ('decimal add, subtract, compare and zero-and-add', 'AP SP CP and ZAP give the exact signed decimal result, sign and condition code for operands of different lengths, report decimal overflow and invalid digits or signs, and leave all other storage unchanged', 'packed decimal instructions'),
 '10': ('multiply, divide and decimal conversion', 'MR M MH DR D CVB and CVD give the exact 64-bit product, quotient and remainder or converted value with the defined signs, and report an odd register, a zero divisor, a quotient or value that does not fit, and invalid digits as the defined interruptions without changing the registers', 'multiply, divide and convert instructions'),
 '11': ('decimal multiply and divide', 'MP and DP give the exact decimal product, quotient and remainder with the defined signs, and report invalid digits or signs, impossible field lengths, a multiplicand without room for the product and a quotient that does not fit', 'decimal multiply and divide'),
 '12': ('translate and edit', 'TR TRT ED and EDMK replace, test and edit each byte of the first operand as defined, with the defined condition code and result registers, and report invalid digits, protected fields and fields beyond storage', 'translate and edit instructions'),
 '13': ('execute and refused operation codes', 'EX performs the instruction it addresses, its second byte modified by the register, as if it stood in place of the EX with the length of the EX, refuses an odd address or another EX, and leaves the subject in storage unchanged; unassigned operation codes and, in the problem state, privileged ones cause the defined interruption with no other effect', 'EX subjects and operation codes'),
 '09': ('pack, unpack and move with offset', 'PACK UNPK and MVO rearrange digits and zones as defined for all combinations of field lengths, filling or truncating on the left, and change no byte outside the first operand', 'format conversion instructions'),
 '14': ('floating-point load, compare, add, halve and store', 'floating-point loads, stores, comparisons, halving and normalized or unnormalized addition and subtraction, short and long, give the defined sign, characteristic, fraction (with one guard digit), condition code and exponent-overflow, exponent-underflow and significance interruptions, refuse odd registers and misaligned operands, and change nothing else', 'floating-point loads, sums, halving, stores'),
 '15': ('floating-point multiply and divide', 'ME MD DE DD and their register forms normalize their operands and give the defined sign, characteristic and truncated fraction, a true zero for a zero operand, and the exponent-overflow, exponent-underflow and divide interruptions', 'floating-point multiply and divide'),
}
def isa_props(groups, models='AB'):
    for m in models:
        name, cpu, ros, cyc = M[m]
        for g in groups:
            t, body, short = G[g]
            prop(m + g, '%s: %s' % (name, t), 'On the %s, %s. General registers, storage, storage keys and program status that the instruction does not name stay unchanged, storage parity stays correct, and execution continues at the right address.' % (name, body),
                 ['inputs', 'programs'], 'every operand value (registers, storage, masks, condition code, program mask, keys) for the listed %s at the stated addresses, lengths and register choices' % short,
                 'The instruction tests run a few dozen fixed operand values per instruction; carries, sign cases, alignments, keys and overlaps multiply far beyond that.',
                 [cpu, ros], [dict(name='%s microcode interpreter, one microword per call' % cyc, where=cpu), dict(name='microprogram', where=ros)],
                 observe_at=['general registers', 'main storage', 'program status word', 'old PSW after an interruption'],
                 note='The emulator is executed symbolically microword by microword from one instruction fetch to the next and compared with an independent reference interpreter; bounds: register numbers, lengths, alignments and addresses from fixed lists, operand values fully symbolic.')
isa_props(['01', '02', '03', '04', '05', '06', '07', '08', '09', '10', '11', '12', '13'])
isa_props(['14', '15'], 'B')
for m in 'AB':
    name, cpu, ros, cyc = M[m]
    prop(m + '16', '%s: channel programs, channel status and I/O interruptions' % name,
         'On the %s, START I/O on the multiplexer or a selector channel starts the channel program the CAW points to: every byte of a block moves unaltered between the device and the storage addressed by the CCW (backward for read backward, nothing stored for the skip flag), storage outside the block and protected storage stay unchanged, each command byte reaches the device, and commands are chained, transferred in channel or skipped by status modifier as defined. The operation ends with exactly one I/O interruption per ending (or is cleared by TEST I/O while interruptions are masked) whose old PSW and CSW hold the unit address, key, next CCW address, unit and channel status (incorrect length, program check, protection check) and residual count; an invalid CAW or first CCW is refused with the condition code and status defined, without starting the device.' % name,
         ['programs', 'schedules', 'inputs'], 'every data byte, key, storage key, CAW and CCW field and ending status for channel programs of one or two operations, and each combination of block length, count, alignment, device speed and transfer mode listed',
         'The channel tests run some forty fixed channel programs with one data pattern, one length relation and one device speed each.',
         [cpu, ros], [dict(name='%s microcode interpreter with multiplexer and selector channel hardware' % cyc, where=cpu), dict(name='channel microprograms', where=ros)],
         observe_at=['main storage', 'device data', 'channel status word', 'I/O old PSW', 'condition code'],
         note='The whole of START I/O, channel program, interruption and the test program around it is executed symbolically against a device that follows the interface protocol and compared with a reference channel; genuine defects are listed in known_findings.json, and programs that show one of them are compared by one collective assertion.')
prop('D01', 'Devices are found, stepped and removed exactly as registered',
     'The device table answers for exactly the devices registered and not removed since: looking up an address under a mask finds the earliest registered device of that channel whose address agrees in the bits of the mask, and nothing otherwise; every channel from 0 to 7 can hold devices; adding and removing devices in any order keeps the others, and removing a device that is not there changes nothing. Starting and shutting down the system initialises and closes every registered device once. A disk controller registered for stepping is stepped exactly once per cycle until it is removed, whatever other controllers there are, and its registration is freed when it is removed.',
     ['histories', 'inputs'], 'every sequence of up to 5 additions, removals and steps over 3 devices with symbolic addresses, masks and neighbouring channels',
     'No test exercises the device table with more than one device on a channel or removes a device.',
     ['src/device/device.c', 'src/device/device.h'], [dict(name='add_chan, del_chan, find_chan', where='src/device/device.c'), dict(name='add_disk, del_disk, step_disk', where='src/device/device.c')])
prop('D02', '2314 disk: what is written to a track is what is read and kept on the image',
     'A channel program to a 2314 drive behind the 2844 control unit (its real microcode) does to the track what its commands say: seek goes to the cylinder and head addressed, on any of the 20 heads, and rejects addresses that do not exist; reading home address, record zero, count, key and data delivers the bytes on the track with good parity and normal status; writing data, key and data, a formatted record or a new track puts exactly the bytes sent on the track (short records and odd lengths included), ends the track behind a formatted record and leaves every other record and track unchanged; search by key stops on the first record with that key and otherwise ends with unit check and no record found; a write is carried out exactly if the file mask permits it. The image file after detaching holds the same bytes that a read of the drive delivers.',
     ['inputs', 'programs', 'histories'], 'every key, data and record-zero byte, seek address, search key and file mask for each record geometry, track and channel program listed',
     'The disk tests use one record geometry with even lengths on one track of head 5 and constant data, and their read-after-write comparison loop never runs.',
     ['src/device/dasd.c', 'src/model2844/model2844.c', 'src/model2844/model2844_ros.txt'], [dict(name='dasd_read_byte, dasd_write_byte, dasd_settags, seek_callback', where='src/device/dasd.c'), dict(name='step_2844', where='src/model2844/model2844.c'), dict(name='2844 microprogram', where='src/model2844/model2844_ros.txt')],
     observe_at=['channel bus', 'unit status and sense bytes', 'disk image file'])
prop('S01', '1442: every card is read, punched and stacked as commanded',
     'On the 1442 card reader punch, on a byte-multiplexed or burst connection, a read delivers the characters punched in the card at the read station in column order, up to the count or 80, and signals a data check exactly when a column holds no valid character; a write adds exactly the punches of the bytes sent to the card at the punch station, across several writes; a feed, after a read or write or on its own, moves each card one station and into the stacker selected, without losing, duplicating or reordering cards or changing their other punches. The last card gives unit exception when the end-of-file key is on; without a card in place the unit asks for intervention; while cards move it is busy; unknown commands are refused with command reject and move nothing; sense tells the reason of each unit check.',
     ['programs', 'inputs', 'histories'], 'any holes in four columns of each card, any bytes punched, any unknown command byte, for the listed decks of 1 to 4 cards and sequences of up to 5 operations on either kind of connection',
     'The 1442 tests read and punch fixed decks of one pattern, mostly one operation at a time, and do not follow a card through all stations.',
     ['src/model1442/model1442.c', 'src/device/card.c'], [dict(name='read_callback, write_callback, device_cmd, model1442_dev, model1442_feed', where='src/model1442/model1442.c')],
     observe_at=['channel bus', 'unit status and sense byte', 'cards at the stations and in the stackers'])
prop('S02', '1443: every line sent is printed, spaced and skipped as commanded',
     'On the 1443 printer, writing a line appends to the print file exactly the characters sent (120 at most, EBCDIC translated to ASCII, trailing blanks dropped, a dot for characters that do not print), followed by as many new lines as the command spaces, or as there are up to the next line of the form with a punch in the carriage tape channel the command skips to; a space or skip command moves the paper in the same way without printing; passing the end of the 66-line form gives a form feed. Nothing printed before is lost or changed. The unit gives channel end when the line is accepted and device end when the paper has moved, asks for intervention when it is not ready, refuses unknown commands with command reject, printing nothing, does not act on a command or line that came with bad parity, is busy while the paper moves, and keeps status the channel stacks.',
     ['programs', 'inputs'], 'any value of up to three characters per line, every spacing and channel, from eight positions on the form, any unknown command byte',
     'There is no test of the 1443: its test file is a copy of the 1442 test and never prints.',
     ['src/model1443/model1443.c', 'src/device/xlat.c'], [dict(name='print_line, model1443_dev', where='src/model1443/model1443.c')],
     observe_at=['print file', 'unit status and sense byte'])
prop('S03', '1052: what programs write and operators type arrives unchanged',
     'On the 1052 console, on a byte-multiplexed or burst connection, each character a program writes appears on the telnet terminal in order, EBCDIC translated to ASCII, with a new line after a write with automatic return and nothing else. What is typed during a read reaches the program in order, translated to EBCDIC, up to the count, echoed, with telnet commands removed in whatever pieces they arrive; the return key ends the read normally, the cancel key with unit exception, and nothing typed later is offered. Any byte from the terminal is safe. The request key gives attention exactly once; unknown commands are refused with command reject; bytes and commands with bad parity are not printed or executed; sense tells the reason of each unit check; an idle console asks for nothing.',
     ['programs', 'inputs'], 'any printable characters written or typed in the symbolic positions, any byte sequences of telnet commands around them, any unknown command byte, in the listed programs',
     'No test covers the 1052; it needs a network client.',
     ['src/model1052/model1052.c', 'src/device/xlat.c'], [dict(name='model1052_dev, device_cmd, model1052_func, push_char, model1052_thrd', where='src/model1052/model1052.c')],
     observe_at=['terminal connection', 'channel bus', 'unit status and sense byte'])
