"""The properties: text, quantifier, anchors.  mk.py writes properties.jsonl and MANIFEST.json from this table."""

SC = 'gsmmodem/serial_comms.py'
MO = 'gsmmodem/modem.py'
PD = 'gsmmodem/pdu.py'
EX = 'gsmmodem/exceptions.py'
UT = 'gsmmodem/util.py'

# id: (title, statement, quantifier kinds, quantifier text, why tests cannot, files, mechanism [(name, where)], observe_at)
P = {}


def prop(pid, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (pid, len(title))
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=list(observe))


SEQ = 'The tests use one thread and a fake port that answers at once, so no other interleaving or fault point is ever sampled.'

# ---------------------------------------------------------------- serial layer
prop('S01', 'Command/response exchanges on one port never overlap',
     'From the moment a command is written to the serial port until its response is complete (or its wait has ended), no other thread writes to that port, whichever thread issues the command and whether or not it waits for a response. All exchanges of one connection are serialised by one and the same lock, and a thread that already holds it can still issue commands without deadlocking.',
     ['schedules'], 'all interleavings of any number of threads issuing commands', SEQ, [SC, MO],
     [('transmit lock around the whole exchange', SC + ' SerialComms.write'), ('reentrant lock also used by multi-command operations', MO + ' GsmModem')], ['SerialComms.write', 'serial port writes'])
prop('S02', 'A command returns its own complete response or times out with the rest',
     'When a response is requested, the waiter, an empty response buffer and the expected terminator are in place before the first byte is sent, so that a response cannot be missed or mixed with an older one. The call returns exactly the lines received for this command once a final line arrived; if none arrives within the given timeout it raises TimeoutException carrying the lines received so far, and when no response is requested it writes the data and returns at once.',
     ['schedules', 'inputs', 'fault_sequences'], 'all timings of the modem relative to the writing thread, all argument combinations', SEQ, [SC],
     [('install, send, wait, collect', SC + ' SerialComms.write')], ['return value / exception of SerialComms.write'])
prop('S03', 'No exchange leaves anything behind, however it ends',
     'Whether a command completes, times out or fails because the port does, its waiter and its expected terminator are withdrawn and the lock is released before the call ends. Later input is therefore never swallowed as, or cut short by, a finished exchange.',
     ['fault_sequences', 'histories'], 'every exit of an exchange, including a port fault during the write', 'Only the timeout and success exits are sampled; a port failing in the middle of an exchange never occurs in the tests.', [SC],
     [('withdrawal on every exit', SC + ' SerialComms.write')], ['SerialComms state after write() ended'])
prop('S04', 'Signalling threads survive a waiter that withdraws at any moment',
     'The reader thread and the notification threads never fail because the thread waiting for a response, a delivery report, a USSD answer or a call setup gives up (times out) at the very moment they signal it. Whatever a waiting thread may withdraw is read once and checked before it is used.',
     ['schedules'], 'all interleavings of a timing-out waiter with the thread that signals it', SEQ, [SC, MO],
     [('single read of the shared waiter', SC + ' reader'), ('single read of the shared waiter', MO + ' notification handlers')], ['liveness of the reader and notification threads'])
prop('S05', 'Every received line reaches exactly one recipient, whole and in order',
     'Each non-empty line received from the modem is delivered exactly once: to the command waiting for a response if there is one that is not complete yet, else to the current batch of notification lines. Lines are split only at the end-of-line sequence (or the expected terminator), keep all their characters and their order, and a notification batch is handed to the callback as soon as, and only when, no further input is waiting at the port.',
     ['inputs', 'schedules', 'histories'], 'all byte streams, any split of the input over time, waiter present or absent', 'Tests feed a handful of whole lines with fixed timing.', [SC],
     [('reader loop and line dispatch', SC + ' reader')], ['notification callback arguments', 'responses'])
prop('S06', 'Lines handed to a caller or callback are never changed afterwards',
     'The list of lines returned as a response, attached to a timeout, or passed to the notification callback belongs to its receiver: it is not emptied, extended or reused for later input, even while another thread is still working on it. A response that has been signalled complete does not grow any more.',
     ['schedules', 'histories'], 'any delay of the receiving thread, any later input', 'Tests inspect the lists at once, before further input arrives.', [SC],
     [('a fresh list per batch and per exchange', SC)], ['lists received by callbacks and callers'])
prop('S07', 'The reader thread never waits for the modem it is reading from',
     'Nothing that runs on the reader thread, including the handling of notifications, issues a command, waits for an event or thread, sleeps, or takes the transmit lock. Notification handling that needs commands runs in a thread of its own, so responses keep flowing.',
     ['schedules', 'inputs'], 'all notification batches arriving at any time', 'The fake modem answers synchronously inside the write, which hides the deadlock.', [SC, MO],
     [('dispatch to a new thread', MO + ' notification callback')], ['progress of commands issued from notification handlers'])
prop('S08', 'A failing port is reported once and closing waits for the reader',
     'If reading from the port fails, the connection is marked as not alive and the fatal error callback is called exactly once with the error; it is never called otherwise and the failure does not escape from the reader thread. Connecting opens the port and marks the connection alive before the reader starts; closing stops the reader, waits for it to end and only then closes the port.',
     ['fault_sequences', 'schedules'], 'a port fault at any read, any thread schedule of connect and close', 'One scripted fault is tested, with a handler that checks only that it was called.', [SC],
     [('reader fault handler', SC + ' reader'), ('connect/close order', SC + ' SerialComms.connect, close')], ['alive', 'fatal error callback'])
prop('S09', 'Exactly the final result codes end a response',
     'A response is complete when a line is received that is, in full, OK, ERROR, +CME ERROR: <number>, +CMS ERROR: <number> or COMMAND NOT SUPPORT, and no other line ends it (unless the caller gave its own terminator).',
     ['inputs'], 'all lines a modem can send', 'A few lines out of an infinite set are tested.', [SC],
     [('terminator expression', SC + ' reader')], ['responses returned'])

# --------------------------------------------------------------- modem commands
FEW = 'The tests answer with a handful of scripted responses per modem profile.'
prop('M01', 'A rejected command always raises the exception of its error code',
     'Unless the caller asks for the raw response, a command whose response ends in an error result raises: the PIN, PUK or generic CME error, the CMS error, or the plain command error, according to the class and number in the response, carrying the command and the code; a response ending in OK never raises. The command, terminator, timeout and expected terminator given by the caller are those used for the exchange, and the complete response is returned.',
     ['inputs'], 'all responses a modem can give to any command, all argument combinations', FEW, [MO, EX],
     [('error translation', MO + ' GsmModem.write')], ['exceptions and return values of GsmModem.write'])
prop('M02', 'A busy modem is asked again with the identical command and slowed pacing',
     'When the modem reports that it is busy (CME 515 or 14) the very same exchange is repeated after a pause, with all of its arguments, and its result is the result of the call. The slower command pacing starts with the first busy answer and ends once the command has gone through or failed for another reason; no other error is retried.',
     ['inputs', 'histories', 'fault_sequences'], 'any number of busy answers in a row, each with any outcome afterwards', 'One busy answer followed by success is tested.', [MO],
     [('busy retry', MO + ' GsmModem.write')], ['commands sent after a busy answer', 'delay between commands'])
prop('M03', 'Every error code maps to one exception class with its type and code',
     'All exceptions of the library derive from one base class; CME and CMS errors are command errors, and the PIN/PUK error codes map to the PIN/PUK error classes, which are CME errors. Each exception of a modem error carries the command, the error type (CME or CMS) and the numeric code it was raised for.',
     ['inputs'], 'all error codes, all commands', FEW, [EX, MO],
     [('exception hierarchy and constructors', EX)], ['exception attributes'])
prop('M04', 'Connecting sets up any modem, tolerating rejected optional commands',
     'Whatever subset of the optional initialisation commands a modem rejects, connect() completes (only a failure of a required command fails it); it resets the modem before, never after, applying settings, switches echo off, asks for numeric errors, selects the SMS mode, requests new-message notifications and enables caller ID where supported. What the modem object remembers about supported features (caller ID, extended ring format) agrees with what the modem accepted.',
     ['configurations', 'fault_sequences'], 'any subset of initialisation commands rejected, in any combination', 'Tests run a few fixed modem profiles.', [MO],
     [('initialisation sequence', MO + ' GsmModem.connect')], ['commands sent by connect()', 'feature flags'])
prop('M05', 'The SIM is unlocked with the given PIN, once, only when it asks for it',
     'connect() asks for the SIM state first; the given PIN is sent exactly as given, at most once, and only if the SIM is not ready already. If the SIM needs a PIN and none was given, PinRequiredError is raised; a rejected PIN is reported to the caller and never retried, and nothing that needs the SIM is attempted while it is locked.',
     ['inputs', 'configurations', 'fault_sequences'], 'all SIM states, PIN given or not, any answer to the PIN', 'Three SIM states are sampled. A wrong repetition can block a SIM card for good.', [MO],
     [('SIM unlocking', MO + ' GsmModem.connect')], ['commands with PIN', 'exceptions of connect()'])
prop('M06', 'SMS mode and service centre are remembered only when the modem accepted them',
     'Setting the SMS mode or the service centre number sends the corresponding command with exactly that value, and the remembered value changes only after the modem accepted it; a rejection or timeout is raised to the caller and changes nothing. Setting the value that is in effect already need not send anything; reading the service centre returns what the modem reports. After connect() the modem has the service centre that was set before, else its own one, even if it forgets it when other settings are made.',
     ['inputs', 'fault_sequences', 'histories'], 'all values, all answers of the modem, any earlier setting', FEW, [MO],
     [('mode and service centre properties', MO + ' GsmModem.smsTextMode, smsc')], ['commands and properties'])
prop('M07', 'SMS commands always use the syntax of the mode the modem is in',
     'The SMS mode that decides the syntax of a send, read or list command, and the parsing of its response, is the mode the modem is in when that command is executed. A mode change by another thread never comes between looking up the mode and the command that relies on it.',
     ['schedules'], 'all interleavings of mode changes with sending, reading and listing', SEQ, [MO],
     [('mode looked up under the exchange lock', MO + ' GsmModem.sendSms, readStoredSms, listStoredSms')], ['SMS commands and parsing'])
prop('M08', 'Missing or malformed parts of a response are never used unchecked',
     'Where a response can lack the expected line or not match the expected form, no public operation goes on with the missing part: it reports the condition through the library\'s documented exceptions or its documented fallback, and never fails with an error of the programming language such as using None.',
     ['inputs'], 'all well- and ill-formed responses to the commands of the public operations', FEW, [MO],
     [('checks of matched lines', MO)], ['exceptions of the public operations'])
prop('G03', 'Waiting for coverage ends exactly on registration, denial or time limit',
     'waitForNetworkCoverage() returns the signal strength if, and only if, the network reports that the modem is registered (home or roaming), raises InvalidStateException if registration is denied or switched off, and TimeoutException once the given time has passed; in all other states it keeps asking. signalStrength is the number that the modem reports, but negative if that is 99 (unknown). It never returns or raises for another registration state, and a pending timer does not outlive the call.',
     ['inputs', 'schedules', 'histories'], 'all sequences of registration states and signal strengths, any timer expiry', 'Two scripted sequences are tested.', [MO],
     [('polling loop with timer', MO + ' GsmModem.waitForNetworkCoverage')], ['result of waitForNetworkCoverage()'])

# ------------------------------------------------------------------------- SMS
prop('X01', 'Prompt and text of an outgoing message are one unbroken exchange',
     'A message (or part) is announced with the given destination, or the length of exactly the PDU sent for it; its text is sent, complete and terminated by Ctrl-Z, only after the modem has prompted for it. From the announcement to the end of the text no other thread can write to the modem, and if the prompt does not come the text is not sent as if it were a command.',
     ['schedules', 'fault_sequences', 'inputs'], 'all interleavings with other commands, prompt missing or refused, text and PDU mode, any number of parts', SEQ, [MO],
     [('sending under the exchange lock', MO + ' GsmModem.sendSms')], ['data written to the port by sendSms()'])
prop('X02', 'A message counts as sent only when the modem confirmed every part of it',
     'sendSms() returns only if each part was sent and confirmed with a message reference; a missing confirmation or an error answer raises, and no further part is sent after one that was not confirmed. The returned message carries the given number and text and the reference confirmed by the modem, under which it is registered for delivery reports; the reference the next message is encoded with fits into its octet, whatever reference was confirmed.',
     ['inputs', 'fault_sequences'], 'any part rejected or unconfirmed, any number of parts', 'Every tested part is accepted.', [MO],
     [('confirmation of each part', MO + ' GsmModem.sendSms')], ['result of sendSms()', 'registered sent messages'])
prop('X03', 'Each new-message notification is read, removed and delivered exactly once',
     'For every notification of a stored message or status report, the message at exactly that index of exactly that memory is read, then deleted from there, and then handed over once: a message to the message callback, a status report to the waiting sender or the report callback. It is never deleted before it was read successfully, nor delivered before it was deleted.',
     ['inputs', 'fault_sequences', 'schedules'], 'all memories and indexes, failures of reading or deleting', 'One notification per profile is tested, with accepted commands.', [MO],
     [('notification handlers', MO)], ['commands after a notification', 'callbacks'])
prop('X04', 'Storage operations act on the requested memory and message only',
     'Reading, deleting and listing stored messages first select the requested memory (unless it is selected already or none is requested) and no other thread can select another one before the operation\'s own command is done. The selected memory is remembered only after the modem accepted it; the index and deletion flag sent are the given ones, and flags outside 1-4 are refused with ValueError before anything is sent.',
     ['schedules', 'inputs', 'histories', 'fault_sequences'], 'all interleavings of storage operations of several threads, all memories, indexes and flags', SEQ, [MO],
     [('memory selection under the exchange lock', MO + ' GsmModem.readStoredSms, deleteStoredSms, deleteMultipleStoredSms, listStoredSms')], ['AT+CPMS, AT+CMGR, AT+CMGD, AT+CMGL commands'])
prop('X05', 'Listing returns every stored message and deletes only those it returns',
     'Every message of the list response is returned once, in either mode, including the last one and those following an undecodable entry. With deletion requested, exactly the returned messages are removed, by the index listed for each of them, under the same hold of the lock; without it nothing is removed.',
     ['inputs', 'schedules'], 'all list responses: any sequence of header, text, PDU and undecodable lines (every combination of up to four lines is followed)', 'Two well-formed lists are tested.', [MO],
     [('list parser and deletion', MO + ' GsmModem.listStoredSms')], ['returned list', 'AT+CMGD commands'])
prop('X06', 'Messages read from the modem carry their own fields, in the right places',
     'Number, time, text, service centre and status of a received message, and reference, number, both times and delivery status of a status report, are those of the same entry\'s header and PDU (or text lines), each from its own field, whether read singly or listed. The text of a text-mode message consists of all of its lines, and the kind of object follows the kind of the message.',
     ['inputs'], 'all responses in text and PDU mode', 'A few fixed messages are tested.', [MO],
     [('message construction', MO + ' GsmModem.readStoredSms, listStoredSms')], ['attributes of returned messages'])
prop('X07', 'A delivery report reaches its message and the waiting sender or the callback',
     'A status report is attached to the sent message with its reference (if the application still holds it); if a sendSms() call waits for it that call is woken after this, else the report callback gets it, never both and never neither. A waiting call is registered before any other thread can handle the report, waits at most the given time without blocking the port, returns only if the report came, raises TimeoutException otherwise, and leaves no registration behind; the status of a sent message is "en route" without a report, "delivered" for a successful one, else "failed".',
     ['schedules', 'inputs', 'fault_sequences'], 'all interleavings of reports with waiting, timing-out and finished senders, all delivery status codes', SEQ, [MO],
     [('report handling and waiting', MO + ' GsmModem.sendSms, notification handler'), ('status', MO + ' SentSms.status')], ['SentSms.report, SentSms.status', 'callbacks', 'sendSms() result'])
prop('W01', 'Waiting for the network\'s answer is armed first, bounded, and cleaned up',
     'sendUssd() and dial() prepare their wait before they send the command, so that an answer arriving at any later moment wakes them; the answer is stored before the wake-up and read after it. The wait is bounded by the given timeout, an expired wait raises TimeoutException, and no way of ending the call (answer, timeout, rejected command, failing port) leaves the wait armed.',
     ['schedules', 'fault_sequences'], 'all interleavings of the answer with command, wait and timeout', SEQ, [MO],
     [('waiter fields', MO + ' GsmModem.sendUssd, dial and their notification handlers')], ['results of sendUssd() and dial()'])
prop('W02', 'USSD answers keep their text and session state; closed sessions stay closed',
     'A USSD object carries the text of the network\'s notification, and its session counts as active exactly if that notification\'s code is 1 and no other one of the same answer released the session. A reply is sent, unchanged, only in an active session and raises InvalidStateException otherwise; cancelling sends the cancel command only in an active session.',
     ['inputs'], 'all USSD notifications, single or multiple, as response or notification', 'A few notifications are tested.', [MO],
     [('USSD parsing', MO + ' GsmModem.sendUssd'), ('session methods', MO + ' Ussd.reply, cancel')], ['Ussd attributes', 'commands'])

# ----------------------------------------------------------------------- calls
prop('V01', 'A new call never takes the id or the place of an active call',
     'Where the library itself numbers a call (every incoming call, outgoing calls of modems that do not report an id), the new call gets an id that no active call has, whichever calls are active at that moment. It is registered exactly once, under its own id, and every call that was active stays registered and unchanged.',
     ['histories'], 'every tried set of up to five active calls, incoming and outgoing, after any earlier ends of calls', 'At most two calls exist at a time in the tests, ended in the order they began.', [MO],
     [('numbering of calls', MO + ' GsmModem.dial, notification handlers')], ['GsmModem.activeCalls', 'Call.id'])
prop('V02', 'Calls end exactly once, and answering or hanging up fits the call\'s state',
     'hangup() sends one hang-up command for an active call and none for an ended one, whether it ended by an earlier hangup or remotely; afterwards the call is inactive, unanswered, not ringing and unregistered, its status callback was called once for the change, when it already was inactive, and a newer call that got the same id stays untouched. answer() sends one answer command for a ringing call and none otherwise and returns the call; if the modem refuses or does not respond, the error reaches the caller and the call keeps its state.',
     ['histories', 'fault_sequences'], 'all orders of answer, hangup, repeated hangup, remote end and reuse of the id; refused and unanswered commands', 'The tests hang up each call once, with an accepted command.', [MO],
     [('call operations', MO + ' Call.hangup, IncomingCall.answer, IncomingCall.hangup')], ['call attributes', 'GsmModem.activeCalls', 'commands', 'status callback'])
prop('V03', 'A call status notification changes exactly the call it is about',
     'An answer, end or rejection notification of a modem family changes the call with the id it names or, where the family does not name calls, the first outgoing call the event can be about (one not yet answered for answers and rejections). That call\'s state and registration follow, then its single status callback; all other calls, incoming ones included, stay as they are, and a notification about an unknown call changes nothing.',
     ['histories', 'inputs'], 'all status notifications of the three modem families with several calls of different kinds and states active', 'The tests have one call active.', [MO],
     [('call status handlers', MO)], ['call attributes', 'GsmModem.activeCalls', 'status callback'])
prop('V04', 'Every ring is reported once, with its own caller and a matching call',
     'Each ring notification calls the incoming call callback once, with a registered call. A ring of a caller whose incoming call is active already adds to that call\'s ring count; any other ring (another number, none, or the number of an outgoing call) makes a new ringing, active, unanswered call with number, number type and call type as notified, whatever the caller-id and call-type settings of the modem.',
     ['inputs', 'histories'], 'rings with and without number and type, repeated, mixed and after hang-ups, with caller id or call types unavailable', 'Single calls with complete notifications are tested.', [MO],
     [('incoming call handler', MO)], ['incoming call callback', 'IncomingCall attributes'])
prop('V05', 'Dialling follows the conventions of the connected kind of modem',
     'For each known family (Huawei, Wavecom, ZTE) and for generic modems, detected by supported commands, manufacturer or probing, dial() sends one voice dialling command with the given number, waits for the response exactly if that family sends one at once, and returns a registered, active, unanswered call with the id the modem reported (if it reports one), its number and no callback yet. The notifications of that family then mark this call as answered or ended.',
     ['configurations', 'inputs'], 'eight modem profiles, each connected and used from scratch', 'The tests share hand-made profiles and check the commands of a few.', [MO],
     [('detection and status tables', MO + ' GsmModem.connect'), ('dialling', MO + ' GsmModem.dial')], ['commands', 'call attributes'])
prop('V06', 'Tones are sent completely, in order, and only in an answered call',
     'sendDtmfTone() in an answered call sends every given tone once and in order with the tone command of the connected kind of modem (addressing this call where it takes a call id). In a ringing, unanswered or ended call it raises InvalidStateException and sends nothing; CME errors 30 and 3 are raised as InterruptedException, every other error unchanged.',
     ['inputs', 'histories', 'fault_sequences'], 'tone strings of any tested length on eight modem profiles, all call states, error codes', 'A few tone strings on an answered call are tested.', [MO],
     [('tone sending', MO + ' Call.sendDtmfTone')], ['commands', 'exceptions'])
prop('V08', 'Polling follows a call of a generic modem to its end and no further',
     'For a modem without status notifications the status of a dialled call is polled: the call counts as answered when the modem first lists it as active and as ended when it is no longer listed, with one status callback for each change, whatever other calls or held states are listed in between. Polling stops once the call has ended or the connection is closed, and a single unanswered poll does not end it.',
     ['histories', 'fault_sequences'], 'sequences of call lists: dialling, alerting, active, held, gone, other calls listed, polls unanswered', 'One simple sequence is tested.', [MO],
     [('polling thread', MO)], ['AT+CLCC commands', 'call attributes', 'status callback'])

# --------------------------------------------------------------- notifications
prop('N01', 'Every notification of a batch is handled once, in the order received',
     'When several notifications are received together (messages, status reports, rings with or without caller id, call status updates, unknown lines, in any order) each of them is handled exactly once and in order, and unknown lines affect nothing. The batch is passed on complete, to a single handler thread; a USSD notification may use the rest of its batch as its text.',
     ['inputs', 'histories'], 'batches of all kinds of notifications of three modem families', 'The tests deliver notifications one by one.', [MO],
     [('notification dispatch', MO)], ['commands and callbacks caused by notifications'])
prop('N02', 'No notification, malformed or racing, breaks its handling',
     'Handling any line, however malformed, incomplete or about an unknown call, ends without an error of the programming language. Code that works with the active calls copes with other threads adding and ending calls at any moment: an entry that has disappeared since it was seen, or a change during an iteration, is never an error.',
     ['inputs', 'schedules'], 'malformed variants of all notifications on four modem families; all interleavings of call ends', 'Malformed notifications and races are hardly tested.', [MO],
     [('notification handlers', MO)], ['handler threads', 'GsmModem.activeCalls'])
prop('G01', 'Objects of the library do not share state',
     'Using one modem, call, message, PDU or terminal object changes that object\'s state and never class-level data, module-level data or default argument values, so several modems or conversions in one process do not influence each other.',
     ['histories'], 'every function of the package and its tools', 'Tests use one object at a time.', ['gsmmodem', 'tools'],
     [('all writes', 'gsmmodem, tools')], ['class and module attributes'])

# ------------------------------------------------------------------------- PDUs
PD = 'gsmmodem/pdu.py'
prop('P01', 'Decoding a PDU never fails with anything but EncodingError',
     'decodeSmsPdu(), given octets or a hexadecimal string, returns a decoded message or raises EncodingError. This holds for messages cut off anywhere, for information elements, user data lengths or time stamps that make no sense, for unknown message types, and for strings that are not hexadecimal.',
     ['inputs'], 'every message form cut after every octet; malformed headers, lengths, elements, time stamps; malformed strings; contents symbolic', 'The tests decode a few invalid PDUs.', [PD],
     [('decoding', PD + ' decodeSmsPdu')], ['exceptions of decodeSmsPdu()'])
prop('P02', 'The GSM 03.38 alphabet is encoded and decoded as specified',
     'encodeGsm7() gives each character of the default alphabet its code and each character of the extension table the escape code and its code; any other character (the bare escape code included) raises ValueError, or is left out if asked to discard. decodeGsm7() is the inverse; after an escape code, a code without entry in the extension table stands for the character of the main table, and an incomplete escape sequence at the end for nothing.',
     ['inputs'], 'every character and code, alone and in mixed texts', 'The tests sample a few texts; several codes were never exercised.', [PD],
     [('alphabet', PD + ' encodeGsm7, decodeGsm7')], ['results of encodeGsm7(), decodeGsm7()'])
prop('P03', 'SMS-SUBMIT PDUs have the layout of GSM 03.40 and the announced length',
     'A PDU made by encodeSmsSubmitPdu() consists of SMSC field, first octet, reference, destination, protocol identifier, data coding scheme, validity period (if any), user data length and user data, in this order. The first octet shows exactly the requested options (status report, duplicate rejection, validity format, user data header), the user data carry exactly the text, tpduLength counts the octets after the SMSC field, and str() of the PDU is its hexadecimal form.',
     ['inputs', 'configurations'], 'all option combinations with symbolic numbers, references and texts of many lengths in GSM-7 and UCS2', 'A few fixed messages with two or three option sets are compared.', [PD],
     [('encoding', PD + ' encodeSmsSubmitPdu, Pdu')], ['octets and tpduLength of the returned PDUs'])
prop('P04', 'SMS-DELIVER, SMS-SUBMIT and status report PDUs are decoded field by field',
     'decodeSmsPdu() returns the type, SMSC, TPDU length, number, reference, protocol identifier, time stamps, validity period, status, information elements and text that a well-formed PDU carries, as octets or as hexadecimal string. Options of the first octet, texts of any length and alphabet, escape sequences, headers of any length with their fill bits, and padding after the text do not disturb each other.',
     ['inputs'], 'all three message types; symbolic fields; texts of all lengths modulo 8, headers of all lengths modulo 7', 'About ten fixed PDUs are decoded.', [PD],
     [('decoding', PD + ' decodeSmsPdu')], ['result of decodeSmsPdu()'])
prop('P05', 'Long messages are split into complete, ordered and reassemblable parts',
     'A text of more than 160 septets (140 octets in UCS2) becomes several PDUs, a shorter one a single PDU without header. Every part fits into 140 octets and carries the message\'s reference, the number of parts and its own position in a concatenation element; the parts joined in order are exactly the text, none is empty, and no escape sequence or surrogate pair is divided.',
     ['inputs'], 'texts around every boundary of one to four parts, escape sequences and surrogate pairs across boundaries, all options', 'Two long texts without such characters at the boundaries are tested.', [PD],
     [('concatenation', PD + ' encodeSmsSubmitPdu')], ['returned PDUs'])
prop('P06', 'Information elements are decoded and encoded without loss',
     'The information elements of a user data header are returned in order with identifier, length and data; concatenation and port elements (8 and 16 bit) also with their reference, parts and number or destination and source. encode() of an element gives the same octets for unknown ones, and for concatenation and ports the 8-bit form if the values fit in it, else the 16-bit form.',
     ['inputs'], 'elements of all four known kinds and unknown ones, alone and in sequence, symbolic values', 'One element of each kind with fixed values is tested.', [PD],
     [('information elements', PD + ' InformationElement, Concatenation, PortAddress')], ["'udh' of decoded messages", 'results of encode()'])
prop('P07', 'Relative validity periods follow the table of GSM 03.40',
     'A validity period (timedelta) is encoded as the octet of the longest period of the table that does not exceed it, the shortest one (5 minutes) for anything shorter; a period of more than 63 weeks and a day raises ValueError. Decoding gives exactly the period each of the 256 values stands for.',
     ['inputs'], 'all 256 octets; all periods at and around every step of the table', 'A few values per range are tested.', [PD],
     [('validity', PD + ' encodeSmsSubmitPdu, decodeSmsPdu')], ['validity octet', "'validity' of decoded messages"])
prop('P08', 'Time stamps keep date, time and time zone',
     'An absolute validity period is encoded with all its digits and its time zone in quarter hours with sign (-12:00 to +14:00); without a time zone it raises ValueError, and a validity that is neither datetime nor timedelta raises TypeError. Time stamps of decoded messages are datetime objects with exactly the transmitted date, time and UTC offset.',
     ['inputs'], 'all quarter-hour time zones, symbolic digits', 'A handful of zones and times is tested.', [PD],
     [('time stamps', PD + ' encodeSmsSubmitPdu, decodeSmsPdu')], ['validity octets', "'time', 'discharge', 'validity' of decoded messages"])
prop('P09', 'The data coding scheme always names the alphabet of the text',
     'A text is sent in GSM-7 exactly if all its characters belong to that alphabet, else in UCS2; the data coding scheme says so, the flash class is set exactly if requested, and all parts of a long message agree. Decoding chooses the alphabet (GSM-7, 8-bit data or UCS2) by the alphabet bits of the general data coding group, whatever the message class bits are.',
     ['inputs', 'configurations'], 'texts of all character classes, long and short, flash or not; all message class bits', 'Few combinations are tested.', [PD],
     [('alphabet choice', PD + ' encodeSmsSubmitPdu, decodeSmsPdu')], ['data coding octet', "'text' of decoded messages"])
prop('P10', 'Every text can be sent, and is sent as itself',
     'encodeSmsSubmitPdu() encodes any text without an exception: basic and extension characters, control characters, the escape code, characters of the basic plane, characters beyond it (as surrogate pairs) and lone surrogates, in any mixture and of any length, the empty text included. What the PDUs carry is exactly this text.',
     ['inputs'], 'character classes, single, mixed and repeated to the length limits', 'Two or three short texts are tested.', [PD],
     [('text encoding', PD + ' encodeSmsSubmitPdu, encodeUcs2')], ['returned PDUs', 'exceptions'])
prop('P11', 'Septet packing and unpacking lose no bit',
     'packSeptets() puts the bits of each septet in order, lowest first, into as few octets as possible and fills the rest with zero. unpackSeptets() of these octets, from a buffer or a stream and with or without the number of septets, begins with the same septets; only a final zero septet that cannot be told from padding may be missing, and only if the number was not given.',
     ['inputs'], 'all lengths of 0 to 17 septets (every bit offset twice), symbolic septets', 'Four byte strings are tested.', [PD],
     [('bit packing', PD + ' packSeptets, unpackSeptets')], ['results of packSeptets(), unpackSeptets()'])
prop('P12', 'Numbers and names survive the address fields',
     'Destination and SMSC are encoded with the length, type of address and swapped digits (or packed name) that GSM 03.40 prescribes, for international, local and alphanumeric addresses. Decoding gives the number with all its digits, with a plus sign exactly for international ones, or the name, for odd and even lengths, and continues with the octet after the field, also for an absent SMSC or an empty number; encodeSemiOctets() and decodeSemiOctets() are inverse to each other.',
     ['inputs'], 'numbers of 1 to 20 digits, names of 1 to 11 characters with extension characters, five types of number', 'About ten addresses are tested.', [PD],
     [('addresses', PD + ' encodeSmsSubmitPdu, decodeSmsPdu, encodeSemiOctets, decodeSemiOctets')], ['address octets', "'number', 'smsc' of decoded messages"])

# ------------------------------------------------------------------ helpers and tools
TR = 'tools/gsmtermlib/trie.py'
prop('U01', 'Time stamps and lines of answers are found and read as documented',
     'parseTextModeTimeStr() gives a datetime with exactly the date and time of "yy/MM/dd,hh:mm:ss" and the UTC offset of zz quarter hours, with its sign, for every zone from -12:00 to +14:00. lineStartingWith(), lineMatching() and lineMatchingPattern() return the first line (match) that starts with the string (matches at its start), None if there is none; allLinesMatchingPattern() returns the matches of all such lines in order, an empty list if there is none.',
     ['inputs'], 'all quarter-hour zones with symbolic digits; all sequences of up to three (thorough: four) lines that match at the start, later or not at all', 'The tests use a few time stamps and one or two lists of lines.', [UT],
     [('helpers', UT)], ['results of the helper functions'])
prop('R01', 'Every well-formed line of the modem is recognised and its fields are taken whole',
     'Whatever values their fields have, the lines of the modem that the library takes apart - +CSQ, +CLIP, +CMTI, +CDSI, +CUSD, +CMGR and +CMGL (PDU and text mode), +CLCC, +COPS, +CREG, +CSCA, ^ORIG, ^CONN, ^CEND, +WIND: 5/6 and HANGUP - are accepted by the patterns made for them: storage indexes of several digits, empty and present names of senders, numbers with and without "+", network names with spaces and punctuation, call durations and causes of any length. The parts taken out of such a line are whole fields: none is cut at its first digits or characters.',
     ['inputs'], 'all lines of twenty formats (regular languages); fields of several lengths', 'The tests send a handful of literal lines per format.', [MO],
     [('patterns', MO + ' constant patterns of lines')], ['notifications and answers parsed from the lines'])
prop('T01', 'The completion trie is a mapping from strings to values',
     'After any sequence of storing and deleting, a Trie behaves like a dictionary: item access, "in", get(), len(), keys() and iteration show exactly the stored keys with the values last stored (None and other false values included); a missing key raises KeyError, None as key ValueError. keys(prefix) gives exactly the keys that start with the prefix, each once, and longestCommonPrefix(prefix) their longest common prefix, or an empty string if there are none.',
     ['histories'], 'all histories of updates over seven keys that share prefixes in every way (fixpoint over the reachable tries), values symbolic', 'The tests build a few tries and delete two keys.', [TR],
     [('trie', TR + ' Trie')], ['methods of Trie'])
prop('T06', 'The command line tools send once, close the port and tell failure',
     'sendsms.py connects to the given port with the given baud rate and PIN, waits for network coverage, sends the typed text exactly once to the given destination, waiting for a delivery report exactly if requested, and closes the modem; it says that the message was delivered exactly if a report says so. If no port is given, a PIN is missing or wrong, there is no coverage or the sending times out, it (like identify-modem.py where it applies) ends with a non-zero exit status, without going on, after closing the modem if coverage or sending timed out.',
     ['inputs', 'fault_sequences'], 'all combinations of options, answers and failures of the modem', 'The scripts are not tested at all.', ['tools/sendsms.py', 'tools/identify-modem.py'],
     [('scripts', 'tools/sendsms.py main, tools/identify-modem.py main')], ['calls of GsmModem', 'exit status'])

TM = 'tools/gsmtermlib/terminal.py'
prop('T02', 'GSMTerm leaves the console as it found it',
     'Importing the terminal of GSMTerm switches the console (Linux) to single characters without echo. When the program ends, in whatever way Python runs exit handlers, the console gets exactly the settings it had before, all of them, and nothing else is left set.',
     ['configurations', 'programs'], 'all settings of the console before the start', 'The terminal is not tested at all.', [TM],
     [('console', TM + ' module level code, Console.setup, Console.cleanup')], ['termios.tcsetattr', 'atexit.register'])
prop('T04', 'Every AT command that GSMTerm knows can be looked up',
     'For each command of ATCOMMANDS: "?COMMAND", "COMMAND??" and "help COMMAND" (in upper or lower case, and "command=??") show its own name, category, description, parameters and values; TAB after the command or a part of it replaces the input by the longest prefix common to the known commands that start with it, shows these, or the parameters if there is only the command itself, and enter then sends it; "ls" lists it, "ls CATEGORY" lists exactly the commands of that category and "lscat" all categories. None of these, nor help for unknown commands, sends anything to the modem or ends the terminal.',
     ['inputs'], 'all commands of the table, all forms, both cases', 'The terminal is not tested at all.', [TM, 'tools/gsmtermlib/atcommands.py'],
     [('documentation', TM + ' GsmTerm'), ('table', 'tools/gsmtermlib/atcommands.py ATCOMMANDS, CATEGORIES')], ['text written to the console', 'data written to the port'])
prop('T05', 'GSMTerm edits lines and sends exactly what was typed',
     'Printable characters and spaces are inserted at the cursor; left, right, home and end move it within the line, backspace and delete remove the character before and at it, up and down recall the entered commands one after the other without passing the ends (the most recent 100 at least in their order). Enter sends the stripped line and a carriage return to the modem exactly once and starts an empty line; an empty line sends nothing, and a line for the terminal itself (help, ls, lscat, ?, ??) does not either. AT+CMGS= (in any case) enters message mode if and only if the modem answers with the prompt: there enter sends the text up to the cursor, CTRL+Z sends the rest and CTRL+Z and ESC sends ESC, both leave message mode with an empty line. CTRL+] and CTRL+D close the port and end the terminal; no other key does, in any state.',
     ['histories', 'inputs', 'fault_sequences'], 'all sequences of keys over reachable lines of up to three characters and up to two remembered commands (bounded fixpoint), message mode entered with all three kinds of answers, and histories of more than 100 commands', 'The terminal is not tested at all.', [TM],
     [('editor', TM + ' GsmTerm')], ['data written to the port', 'end of the input loop'])

prop('T03', 'No path fails because its parts do not fit together',
     'On every path of the library and the tools, however rarely it runs (error handling, options, other modems): each name used is defined, each attribute read of an own object, own module or standard module (Python 3) exists, each call of an own function, method or constructor fits its parameters, each format string its arguments, each unpacked result has the right number of values, and only exceptions are raised.',
     ['inputs', 'fault_sequences'], 'every statement of gsmmodem/ and tools/ that can run on Python 3 and Linux', 'Statements that the tests do not execute are not looked at by anything: Python reports these errors only when it gets there.', ['gsmmodem', 'tools'],
     [('everything', 'gsmmodem/*.py, tools/*.py, tools/gsmtermlib/*.py')], ['NameError, AttributeError, TypeError, ImportError, IndexError and KeyError of the code itself'])

NA = {}
