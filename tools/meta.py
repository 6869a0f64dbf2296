"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/meta.py` after editing."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, observe, technique, note, level="exploration", state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                technique=technique, note=note, level=level, state=state)


BASE_NOTE = (" Assurance: search over generated cases, not proof; trusts the independent packet/message base readers in pbt/fido.py "
             "and the clock stand-in in csrc/shim.c.")

PROPS = [
    P("C01", "Echomail reaches exactly the right links, once, intact",
      "Every echomail message accepted from a link is queued exactly once for every other link of its area that may receive it (not write-only, not passive, not already named in SEEN-BY when that check is on) and for nobody else, and is stored once in the area's message base. "
      "Each copy carries the same names, subject, date, attributes and text bytes, in a well-formed packet addressed to and from the right systems with the link's password and flavour.",
      ["inputs", "configurations", "histories"], "all configurations of akas, nodes, link modifiers and switches; all packet types; all message contents; all sequences of toss runs",
      "The shell tests toss one or two fixed messages through one fixed configuration; the set of recipients depends on zones, points, modifiers and previous runs.",
      ["src/crashmail/handle.c", "src/crashmail/outbound.c", "src/crashmail/pkt.c", "src/crashmail/scan.c"],
      [("distribution to links", "handle.c HandleEchomail"), ("packet writing", "pkt.c WriteEchoMail/CreatePkt"), ("bundling", "outbound.c ArchiveOutbound")],
      ["outbound directory, bundles, flow files, message bases after crashmail TOSS"],
      "model-based random testing of toss histories against an independent distribution model, shrinking",
      "Recipients, multiplicity, headers and text compared with an independent model."),
    P("C02", "SEEN-BY and PATH lines are exactly what the network needs",
      "Every copy passed on carries SEEN-BY lines naming, sorted and without repetition, exactly the systems that had the message plus those it is now sent to (minus configured removals, plus configured additions; stripped when crossing zones or when the link wants tiny or none), and a PATH that is the received path followed by the own address. "
      "No entry is lost, invented or altered, however long the lists are.",
      ["inputs", "configurations"], "all SEEN-BY/PATH lists up to the documented size, abbreviated or not, all link and aka settings",
      "Loops and duplicate storms only show with particular lists: abbreviation, list lengths over internal block sizes, zone crossings.",
      ["src/crashmail/node2d.c", "src/crashmail/handle.c", "src/crashmail/memmessage.c"],
      [("SEEN-BY list handling", "node2d.c"), ("list construction", "handle.c AddTID/SEEN-BY part of HandleEchomail"), ("control lines in and out", "memmessage.c mmAddBuf/mmMsgToNode2D")],
      ["control lines in outgoing packets and stored messages"],
      "model-based random testing with independent SEEN-BY/PATH reference, shrinking", "Exact set/sequence equality on every copy."),
    P("C03", "Only linked, writable senders can post; everything else goes to BAD",
      "A message for an area is accepted only from a system linked to it for writing (unless security is switched off); a message for an unknown area creates that area only with the links and template the configuration prescribes. "
      "Every refused message is kept, with its text, origin and a reason, in the BAD area and is passed on to nobody.",
      ["inputs", "configurations", "histories"], "all senders, areas, link modifiers, auto-add settings and tags, including tags that look alike in file names",
      "Access control is only exercised by tests with one unlinked sender; auto-created areas depend on group, template and tag characters.",
      ["src/crashmail/handle.c", "src/crashmail/misc.c", "src/crashmail/config.c"],
      [("access checks", "handle.c HandleEchomail"), ("auto-add", "handle.c AddArea/ MakeDirectory"), ("BAD area", "handle.c WriteBad")],
      ["BAD area contents, outbound, rewritten configuration file"],
      "model-based random testing of accept/refuse decisions against an independent access model, shrinking", "Accept/refuse and auto-add outcome equals the model for every message."),
    P("C06", "Duplicates are recognised, and only duplicates",
      "With duplicate checking on, a message whose area and MSGID equal those of one of the last N messages accepted (N being the configured size) in this or any earlier run is killed or put in BAD as configured, and is neither passed on nor stored. "
      "Every message that is not such a duplicate, or is in an area exempt from checking, or has no MSGID, is processed normally.",
      ["inputs", "histories"], "all sequences of toss runs and MSGIDs (8-bit, long, near-equal), all database sizes",
      "Needs long histories, hash collisions and near-equal identifiers; tests send one duplicate.",
      ["src/crashmail/dupe.c", "src/crashmail/handle.c"],
      [("duplicate database", "dupe.c CheckDupe/OpenDupeDB/CloseDupeDB")],
      ["outbound, message bases and BAD area over several runs"],
      "stateful model-based testing against a bounded-history reference, shrinking", "Includes one 72000-message history per run."),
    P("C04", "Every inbound packet and bundle is processed or kept, never lost",
      "Every complete, acceptable message in every packet and bundle found in the inbound directory is processed exactly as if it had arrived alone; malformed, truncated, misaddressed, wrong-password or unpackable input never loses or corrupts the messages before or beside it, and the offending file is kept under a recognisable name instead of being deleted. "
      "TOSS, TOSSDIR and TOSSFILE differ only in the files they take; files are taken oldest first, an archive is unpacked with the packer whose recognition string it matches, and a BEFORETOSS command is run for every packet before it is read, a failing one leaving the mail for the next run. "
      "Nothing that is still being received, or that is not mail, is touched.",
      ["inputs", "histories"], "all packets (any header type, truncated at any byte, any garbage), bundles of any of the recognised archive types and names, packets with wrong passwords or destinations, in any mix",
      "Tests feed well-formed packets only; the truncation points and damaged combinations are unbounded.",
      ["src/crashmail/pkt.c", "src/crashmail/toss.c", "src/crashmail/misc.c"],
      [("packet reading", "pkt.c ReadPkt/ReadMSG"), ("inbound scan and unpacking", "toss.c TossDir/TossBundle"), ("bad files", "misc.c BadFile")],
      ["inbound directory, message bases and outbound after crashmail TOSS"],
      "structure-aware mutation of generated packets and bundles against an independent reference reader, shrinking", "What is imported and which files are kept equals the reference reader's verdict."),
    P("C05", "No input can crash or hang the programs",
      "Whatever a received packet, bundle, message or mail manager request, a message base, a nodelist, a configuration, a saved state file or a command line contains, however long, damaged or malicious, every program ends normally within bounded time without reading or writing outside its memory.",
      ["inputs", "configurations"], "all contents of packets, bundles, MSG and JAM bases, AreaFix requests, area lists, configurations, nodelists and indexes, dupe, statistics and flow files, and program arguments",
      "Fixed-size buffers are spread over the whole code; each needs its own over-long or damaged field, which no example-based test supplies.",
      ["src/crashmail/pkt.c", "src/crashmail/handle.c", "src/crashmail/areafix.c", "src/crashmail/config.c", "src/crashmail/mb_msg.c", "src/crashmail/mb_jam.c", "src/jamlib/message.c", "src/cmnllib/cmnllib.c", "src/tools"],
      [("packet and message parsing", "pkt.c, memmessage.c, handle.c"), ("message base reading", "mb_msg.c, mb_jam.c, jamlib"), ("configuration parsing", "config.c ReadConfig"), ("AreaFix command parsing", "areafix.c"), ("nodelist parsing", "tools/crashlist.c, cmnllib.c")],
      ["exit status and sanitizer reports of every program"],
      "structure-aware mutation fuzzing of whole runs of all programs built with address and undefined behaviour sanitizers, shrinking", "Any abnormal end, sanitizer report or time-out is a violation."),
    P("C07", "Netmail goes to the right next hop, once",
      "Every netmail message, received or written locally, is either stored in the netmail area that owns its destination, handed to the mail manager, or queued exactly once for the system and flavour the routing table and attributes prescribe for its full destination (zone, net, node and point); first matching rule wins. "
      "A destination's zone and point are recovered from the message itself and never guessed when stated.",
      ["inputs", "configurations"], "all routing tables, pattern forms, akas, destinations, attribute flags, with or without INTL/TOPT/FMPT, from packets and from message bases",
      "Route tables interact with patterns, default zones, points and flavours; tests cover one route.",
      ["src/crashmail/handle.c", "src/crashmail/pkt.c", "src/crashmail/misc.c", "src/shared/fidonet.c", "src/crashmail/outbound.c"],
      [("routing", "handle.c HandleNetmail"), ("address patterns", "src/shared/fidonet.c Compare4DPat/ExpandNodePat"), ("addressing kludges", "pkt.c ReadMSG")],
      ["netmail packets in the outbound directories, netmail areas"],
      "model-based random testing against an independent routing model, shrinking", "Next hop, flavour, multiplicity compared with an independent model."),
    P("C08", "Netmail in transit keeps its contents and addressing",
      "Netmail passing through or leaving the system keeps sender, recipient, subject, date, text and all control lines unchanged; only the documented changes are made (trace line appended, zone and point control lines made consistent with the addresses, own attribute flags cleared, remapping). "
      "Sender and final destination, including zone and point, can be recovered from the outgoing message alone.",
      ["inputs", "configurations"], "all message contents, control line orders and addresses, including messages without line ends and with 8-bit text",
      "Content-dependent damage appears only for particular line lengths, endings and control line mixes.",
      ["src/crashmail/handle.c", "src/crashmail/memmessage.c", "src/crashmail/pkt.c", "src/crashmail/mb_msg.c", "src/crashmail/mb_jam.c"],
      [("netmail handling", "handle.c HandleNetmail"), ("packet writing", "pkt.c WriteNetMail/WriteMSG"), ("import", "memmessage.c mmAddBuf")],
      ["netmail packets and netmail areas"],
      "model-based random testing with byte-exact content comparison, shrinking", "Byte-exact comparison modulo the documented changes."),
    P("C09", "Undeliverable netmail is bounced or kept, requests are answered",
      "Netmail to systems the configuration says to bounce (unlisted, unknown points, unroutable) is returned to its sender with a reason and the original text or header, or kept in BAD; receipt and audit requests are answered exactly when configured, once and never for automatically generated mail; netmail that loops is logged, kept or ignored as configured. "
      "Attached files follow their message to the same next hop exactly when file attach routing allows it, and otherwise the message is refused or bounced as configured.",
      ["inputs", "configurations"], "all nodelists, destinations, attributes, Via lines, attachments and settings",
      "Each outcome depends on a combination of nodelist, route, attributes and content.",
      ["src/crashmail/handle.c", "src/crashmail/misc.c", "src/crashmail/nl.c"],
      [("bounce", "handle.c Bounce"), ("receipts", "handle.c AnswerReceipt/AnswerAudit"), ("loop check", "handle.c IsLoopMail"), ("nodelist lookup", "src/cmnllib/cmnllib.c")],
      ["netmail packets, netmail areas, BAD area, flow files"],
      "model-based random testing against an independent outcome model, shrinking", "Generated messages, BAD copies and flow entries equal the model's."),
    P("C10", "Queued mail is where the mailer sends it from, once; busy systems wait",
      "After every run all mail and attached files for a system that is not busy are in its outbound (directory by zone, domain and point; packet or flow file by flavour; bundles with valid, unique, advancing names within the size limit), once, together with everything queued earlier and not yet sent. "
      "While a system is busy, none of its files are touched, its mail is kept aside, and the next run after that queues it exactly once; the same holds when the packer fails. "
      "The name of a bundle that was sent is not used for the next one.",
      ["inputs", "configurations", "histories"], "all systems, flavours, packers, size limits and histories of runs, busy flags, packer failures and mailer sessions",
      "The layout depends on the history of runs, mailer sessions, dates and busy flags; the tests look at one run without any.",
      ["src/crashmail/outbound.c", "src/crashmail/pkt.c", "src/crashmail/misc.c"],
      [("directories and names", "outbound.c MakeBaseName/MakeArcName"), ("flow files", "outbound.c AddFlow/doAddFlow/HandleOrphan"), ("packing and retrying", "outbound.c PackFile/ArchiveOutbound"), ("busy flags", "outbound.c LockBasename")],
      ["outbound, packet and flow files, bundles and deferred packets after every run"],
      "stateful model-based testing of toss/busy/packer-failure/mailer histories, shrinking", "Outbound and deferred mail equal the model after every run; bundle naming follows the reference rule."),
    P("C11", "No failure or crash loses mail; running again completes the work",
      "If a toss or scan run fails, is interrupted or crashes at any point (full disk, failing file operation, killed process, failing or killed packer), then the next undisturbed run leaves every message and attached file where an undisturbed run would have put it, at least once, and nothing that was there before is lost or damaged. "
      "Nothing incomplete is ever sent or stored, the configuration is never lost, and the next run always starts.",
      ["inputs", "crash_points", "fault_sequences"], "all systems and mail, all file operations of the run as the point of a failure, crash or interrupt",
      "A test would have to fail each single write, rename or close of a run; the existing ones let everything succeed.",
      ["src/crashmail/crashmail.c", "src/crashmail/toss.c", "src/crashmail/pkt.c", "src/crashmail/outbound.c", "src/crashmail/dupe.c", "src/crashmail/mb_msg.c", "src/crashmail/mb_jam.c", "src/crashmail/safedel.c", "src/crashmail/config.c"],
      [("end of a run", "crashmail.c AfterScanToss"), ("deferred deletion", "safedel.c"), ("temporary packets", "pkt.c FinishPacket, crashmail.c BeforeScanToss"), ("outbound", "outbound.c PackFile/AddFlow")],
      ["outbound, message bases, inbound and configuration after the failed run and one more run"],
      "fault injection at random file operations of generated runs, differential against the undisturbed run, shrinking", "Everything an undisturbed run delivers is there after fault and rerun; one known finding (scan marks before sending).", level="fault_enumeration"),
    P("C12", "Messages written here are exported exactly once",
      "Every locally written message in an area that a scan looks at is sent exactly once, in order and unchanged, to the area's receiving links or to its netmail destination, by whichever scan command sees it first, with or without highwater marks; messages already sent, received from others or deleted are never exported. "
      "The message is then marked as sent (or removed when that is asked for and allowed) and nothing else in the message base changes.",
      ["inputs", "configurations", "histories"], "all interleavings of writing, deleting, tossing and the four scan commands over MSG and JAM bases with any numbering",
      "Re-export and omission depend on histories: highwater marks, gaps, base numbers, deletions between scans.",
      ["src/crashmail/scan.c", "src/crashmail/mb_msg.c", "src/crashmail/mb_jam.c", "src/jamlib/jamlib.h"],
      [("scan commands", "scan.c Scan/ScanArea/ScanList/ScanDotJam"), ("MSG export", "mb_msg.c msg_exportfunc/msg_ExportMSGNum"), ("JAM export", "mb_jam.c jam_exportfunc/jam_ExportJAMNum")],
      ["outbound after every scan, message base contents"],
      "stateful model-based testing of write/delete/toss/scan histories, shrinking", "Exports and stored state equal the model after every step."),
    P("C13", "Message bases store what arrived and stay well formed",
      "Every message imported into an area is stored once with its names, subject, date, attributes, addresses, control lines and text unchanged, whatever the base format, numbering or previous contents, and messages already stored are not altered. "
      "JAM bases stay well formed for other programs: counters, index checksums and reply links are correct and times are consistent with the local time zone.",
      ["inputs", "configurations", "histories"], "all message contents and lengths, MSG and JAM, base numbers, open-base limits, time zones, histories of imports, edits and deletions",
      "Truncation, checksum and threading errors show only for particular lengths, 8-bit characters and orders of arrival.",
      ["src/crashmail/mb_msg.c", "src/crashmail/mb_jam.c", "src/jamlib", "src/crashmail/memmessage.c"],
      [("MSG import", "mb_msg.c msg_importfunc/msg_WriteMSG"), ("JAM import and linking", "mb_jam.c jam_importfunc/jam_linkmb"), ("JAM library", "src/jamlib")],
      ["message base files after every run, read by independent readers"],
      "stateful model-based testing with independent MSG and JAM readers, shrinking", "Content equality, base invariants and reply graph after every step."),
    P("C14", "A rescan sends the stored messages to the asking node only",
      "Rescanning an area for a node sends that node exactly one copy of every stored message, or of those in the newest part of the base when a maximum is given, with its stored contents, a mark that it was rescanned, and SEEN-BY and PATH extended by the own and the receiving address. "
      "Nobody else receives anything and the message base is not changed.",
      ["inputs", "configurations", "histories"], "all bases (MSG and JAM, gaps, deletions, any numbering), maxima and requesting nodes",
      "Off-by-one errors in the window and damaged control lines depend on numbering, deletions and line endings.",
      ["src/crashmail/crashmail.c", "src/crashmail/handle.c", "src/crashmail/mb_msg.c", "src/crashmail/mb_jam.c"],
      [("command", "crashmail.c Rescan"), ("sending", "handle.c HandleRescan"), ("reading", "mb_msg.c msg_rescanfunc, mb_jam.c jam_rescanfunc")],
      ["outbound and message base files after crashmail RESCAN"],
      "stateful model-based testing of histories ending in rescans, shrinking", "Window, recipients, contents and unchanged base files."),
    P("C15", "AreaFix grants exactly what a node may ask for",
      "An AreaFix request changes the configuration only if it comes from a configured node with that node's password, and then only that node's own links, settings and forward requests: areas outside its groups, areas it is banned from and mandatory areas stay as they are, and read-only access stays read-only. "
      "Every command before the end mark is carried out once and answered with what was done; lists, help and configuration info show that node's view; uplinks and linked nodes are told of new and removed areas exactly when configured. "
      "Nobody else receives anything.",
      ["inputs", "configurations", "histories"], "all node rights, area settings, area lists, passwords, command sequences (wildcards, rescans, forward requests) and sequences of runs",
      "Authorisation is a product of groups, bans, flags, patterns and the effects of earlier commands.",
      ["src/crashmail/areafix.c", "src/crashmail/handle.c", "src/crashmail/crashmail.c", "src/crashmail/config.c"],
      [("requests", "areafix.c AreaFix"), ("lists", "areafix.c rawSendList/rawSendInfo/rawSendHelp"), ("forwarding", "areafix.c FindForward/SendRemoteAreafix, handle.c AddArea"), ("operator commands", "crashmail.c SendAFList/RemoveArea")],
      ["replies and other mail in the outbound, configuration file, netmail area, after every run"],
      "stateful model-based testing of request histories against an independent AreaFix model, shrinking", "Mail and configuration equal the model's after every run."),
    P("C16", "Configuration updates keep everything they should not change",
      "When a run changes areas or nodes, the configuration file afterwards defines exactly the new state, including all settings of the changed areas and nodes, and every other line, comment and unchanged block is kept in order; the previous file is kept as the backup. "
      "A run that changes nothing leaves the file alone.",
      ["inputs", "configurations", "histories"], "all layouts of the file that the program accepts and all sequences of AreaFix requests, automatic additions and removals",
      "A setting lost on rewriting shows only for the layout and setting concerned, and only at the next start.",
      ["src/crashmail/config.c", "src/crashmail/areafix.c", "src/crashmail/handle.c"],
      [("rewriting", "config.c UpdateConfig/WriteNode/WriteArea"), ("automatic additions", "handle.c AddArea")],
      ["configuration file and its backup after every run, read by an independent reader"],
      "stateful model-based testing over untidy generated configuration files, shrinking", "Independent parse of the file equals the model; untouched lines form the same sequence."),
    P("C17", "Filters act on exactly the messages their expressions describe",
      "A filter's commands are carried out for exactly the messages for which its documented expression is true (patterns, substring searches, node patterns, truth variables, NOT, AND, OR from left to right, parentheses), for tossed, exported and generated netmail and echomail alike. "
      "Each command does what is documented and nothing else (no import, discard, copy, log line, BAD copy, bounce, external program and its exit code, new destination, new sender), and the message otherwise goes on unchanged. "
      "A configuration with a malformed filter is refused before any mail is touched.",
      ["inputs", "configurations"], "all filter expressions up to 399 characters, command lists and messages",
      "A search that skips a match or a misread NOT affects only particular texts and expressions; the tests use a single simple filter at most.",
      ["src/crashmail/filter.c", "src/shared/expr.c", "src/crashmail/misc.c", "src/oslib_linux/ospattern.c"],
      [("expression evaluation", "expr.c expr_eval/expr_get"), ("variables and searches", "filter.c filter_evalfunc, bmfind"), ("commands", "filter.c Filter and Filter_*"), ("refusal", "filter.c CheckFilter")],
      ["local areas, BAD, netmail and echomail areas, outbound, log and the files given to external programs after toss and scan"],
      "random generation of expressions as syntax trees with a reference evaluator and command model, shrinking", "Every destination holds exactly the messages, in order and intact, that evaluating the syntax tree predicts."),
    P("C18", "The nodelist index answers exactly what the nodelists say",
      "After the nodelists named in the nodelist configuration have been indexed, looking up an address gives its region, hub and the fields of its line in the first list that holds it, and an address that no list holds is reported as not found. "
      "A list named by its base name means the newest edition of exactly that list, and the default zone applies up to the first zone line.",
      ["inputs", "configurations"], "all nodelists, list configurations and addresses",
      "Netmail routing and bouncing rely on every one of tens of thousands of addresses; a hub or region that is carried over wrongly shows for particular entry sequences only.",
      ["src/tools/crashlist.c", "src/tools/crashgetnode.c", "src/cmnllib/cmnllib.c"],
      [("indexing", "crashlist.c ProcessList"), ("choice of the list", "crashlist.c FindList/scandirfunc"), ("lookup", "cmnllib.c cmnlFindNL"), ("display", "crashgetnode.c main")],
      ["output and exit code of crashgetnode"],
      "random generation of nodelist trees, lookup of listed and unlisted addresses against an independent reader of the lists, shrinking", "Every queried address is answered as the generated lists say."),
    P("C19", "Maintenance deletes only what the limits allow, and packing loses nothing",
      "Maintenance removes from each chosen area exactly the lowest-numbered messages beyond its maximum number and those older than its maximum age, by that area's own settings, and touches no other area or file. "
      "Packing keeps every remaining message intact and in order, messages written but not yet exported are still exported exactly once by the next scan, and after a failed write no message that had to be kept is lost.",
      ["inputs", "configurations", "histories", "fault_sequences"], "all configurations, message bases, dates and sequences of writing, tossing, scanning, deleting and maintenance, with any failing write",
      "Deleting mail is irreversible; errors depend on dates, gaps, highwater marks and the order of configuration lines.",
      ["src/tools/crashmaint.c", "src/jamlib/message.c", "src/crashmail/mb_msg.c", "src/crashmail/mb_jam.c"],
      [("settings", "crashmaint.c ReadConfig"), ("deletion and renumbering of *.msg", "crashmaint.c ProcessAreaMSG"), ("deletion and packing of JAM", "crashmaint.c ProcessAreaJAM")],
      ["message base files after crashmaint, outbound after the next scan"],
      "stateful model-based testing of histories with an injected write error, shrinking", "Every base equals the model's after every step; exports equal the model's; survivors checked after faults."),
    P("C20", "crashwrite posts exactly the message it was asked for",
      "For any combination of options and any text file, crashwrite adds exactly one well-formed packet with exactly one message: the names, subject, addresses, attributes, date, area or netmail kludges, message identifier, the text line for line, and for echomail a tear line and an origin line naming the sender. "
      "Values that are too long are cut, not spilled; the tosser accepts the packet and stores that message; no existing packet is touched; and when the options are invalid or the packet cannot be written completely, crashwrite says so in its exit code and leaves no packet.",
      ["inputs", "fault_sequences"], "all option combinations and orders, values of any length and character, text files with any line lengths and line ends, existing packet names, time zones, any single failing write",
      "The tests post fixed short messages; text is read in blocks and names are generated from the clock, so errors depend on lengths, line ends and what already exists.",
      ["src/tools/crashwrite.c", "src/shared/parseargs.c"],
      [("message and packet construction", "crashwrite.c main/WriteMSG/WriteText"), ("option parsing", "parseargs.c")],
      ["packet directory and exit code after crashwrite; message bases after tossing that packet"],
      "random option/text generation with fault injection, strict independent packet parser and round trip through the tosser, shrinking", "Every header field and every text line compared; the packet is then tossed."),
    P("C21", "Statistics count exactly what was received, stored, sent and duplicate",
      "After every successful run the statistics hold, per area, the number of messages ever accepted, the counts of today and the seven days before, the duplicates and the times of the first and latest message, and per node the number and size of netmails and echomails received and sent and its duplicates, no matter how runs and days are interleaved, and also after areas or nodes are reordered, added or removed. "
      "A run that dies leaves the old or the new statistics complete. crashstats prints exactly these figures, sorted and filtered as asked.",
      ["inputs", "configurations", "histories", "crash_points"], "all sequences of toss and scan runs over days, configurations and their changes, crashstats options, kill points",
      "Counters are only wrong after particular histories: day changes, duplicates, unknown senders, rotated or renamed areas; the tests look at none of them.",
      ["src/crashmail/stats.c", "src/crashmail/crashmail.c", "src/crashmail/handle.c", "src/crashmail/pkt.c", "src/tools/crashstats.c"],
      [("file", "stats.c ReadStats/WriteStats"), ("daily rotation", "crashmail.c AfterScanToss"), ("counting", "handle.c HandleEchomail/HandleNetmail, pkt.c ReadPkt/WriteEchoMail/WriteNetMail"), ("report", "crashstats.c")],
      ["statistics file after every run, output of crashstats"],
      "stateful model-based testing with an independent ledger (received: generated packets; sent: mail found in the outbound), kill injection, shrinking", "Every field of every record compared after every run."),
    P("C22", "Outbound listings and exported area lists show exactly what is there",
      "crashlistout lists every flow file, packet and request in an outbound directory and its point directories whose address matches the pattern, and nothing else, in address order, with the right address, flavour, date, size and number of existing files, the marks of the entries, and totals over the files to send. "
      "crashexport writes, in each of its formats and in file order, exactly the areas of the configuration that belong in that format and group, with tag, description, path, message base, address and links, however the configuration file is laid out; it reports failure if the list cannot be written.",
      ["inputs", "configurations", "fault_sequences"], "all outbound directories, zones, patterns and switches; all configurations, layouts, formats and groups; any single failing write",
      "Nothing in the tests runs either tool on more than a trivial input; output depends on patterns, marks, points, groups, abbreviations and quoting.",
      ["src/tools/crashlistout.c", "src/tools/crashexport.c", "src/shared/jbstrcpy.c", "src/shared/node4d.c"],
      [("directory scan, patterns and printing", "crashlistout.c"), ("configuration reading and formats", "crashexport.c main/writearea")],
      ["output of crashlistout, files written by crashexport"],
      "random outbound directories and untidily rendered configurations against independent reference renderings, write fault injection, shrinking", "Rows, contents and totals compared; totals are not claimed when packets are listed."),
    P("C23", "Nodelists of both formats decide listed, region and hub correctly",
      "With a nodelist in either supported format (CrashMail index or Version 7+) of any size, REGION and HUB routing and the listed tests of filters follow exactly the region, hub and presence that the nodelist gives for every address, its points and its unlisted neighbours. "
      "If the nodelist cannot be opened or is not one, the run touches no mail.",
      ["inputs", "configurations"], "all nodelists of up to some thousands of entries, index tree shapes and block sizes, addresses to 65535, missing and cut files",
      "No test uses a nodelist for routing at all; the V7+ reader walks a tree of blocks whose depth, key forms and byte values depend on the list.",
      ["src/crashmail/nl.c", "src/crashmail/nl_v7p.c", "src/crashmail/nl_cmnl.c", "src/crashmail/node4dpat.c", "src/crashmail/filter.c", "src/cmnllib/cmnllib.c"],
      [("tree search and data records", "nl_v7p.c v7p_findoffset/v7p_gethubregion"), ("index lookup", "nl_cmnl.c, cmnllib.c"), ("REGION and HUB destinations", "node4dpat.c ExpandNodePat")],
      ["outbound queue of netmails routed by REGION and by HUB, log lines of EXISTSNL filters, inbound after a run with an unusable nodelist"],
      "generated nodelists written in both formats with random tree shapes; every lookup observed through routing and filters and compared with the list; shrinking", "V7+ files are little endian with 32 bit numbers, as FastLst writes them."),
    P("C24", "Runs with one configuration never overlap; LOCK keeps them out",
      "However many crashmail processes are started with the same configuration file, and however they are timed, at most one of them works at any moment; the others wait and then do their work. While LOCK is in force no run touches anything; LOCK waits for a running process, and UNLOCK lets the waiting ones go on. "
      "Mail found by concurrent runs is processed exactly once, no configuration change is lost, an interrupted waiting run does no harm, and no lock is left behind.",
      ["schedules", "histories"], "all start times, interleavings of file operations (random waits before and after each), commands, LOCK/UNLOCK times and interrupts",
      "The tests run one process at a time; the lock only matters when several start within microseconds of each other.",
      ["src/crashmail/crashmail.c", "src/oslib_linux/osfile.c", "src/crashmail/dupe.c", "src/crashmail/stats.c"],
      [("lock file", "crashmail.c LockConfig/UnlockConfig"), ("order of clean-up", "crashmail.c CleanUp/Free")],
      ["time-stamped file operations of every process, exit codes, final outbound queue, message bases and configuration"],
      "random sets of concurrent processes with random waits injected at every file operation; overlap monitor over the recorded operations and exactly-once oracle over the final state; shrinking", "A stale lock after kill -9 must be removed with UNLOCK, as documented."),
    P("C25", "A configuration means the same in any layout; a wrong one is refused whole",
      "What a configuration file means does not depend on how it is written down: keyword and switch case, blanks, tabs, quotes, escapes, comments, empty lines, line ends, a missing last line end, a slash after a directory name, the position of global settings and the splitting of node lists make no difference to any result. "
      "A configuration with an error - an unknown keyword, a missing or invalid argument, an unknown AKA, node, packer, message base or nodelist type, a setting with nothing to belong to, areas sharing a message base, a bad filter, a pattern that needs a missing nodelist - is refused: "
      "crashmail exits with an error, names the right line of the file, and no mail, queue, message base or configuration file is touched and no lock left.",
      ["configurations", "inputs"], "all valid configurations and layouts of them; all single errors at every place in them; every command",
      "The tests use a few tidy configurations and none with an error; whether a statement is read alike in every layout and every mistake stops the run before mail is lost is a statement about all files.",
      ["src/crashmail/config.c", "src/shared/jbstrcpy.c", "src/crashmail/crashmail.c", "src/crashmail/node4dpat.c", "src/shared/node4d.c"],
      [("reading", "config.c ReadConfig"), ("consistency", "config.c CheckConfig"), ("words of a line", "jbstrcpy.c jbstrcpy"), ("refusal", "crashmail.c main")],
      ["results of the other properties' models under relaid configurations; exit code, message and complete file tree after a refused run"],
      "metamorphic: cases of 13 other properties re-run with randomly relaid configuration text against their models; error injection into generated valid configurations with whole-tree snapshot comparison; shrinking", "Lines up to 3900 bytes."),
]


def write():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            an = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"]}
            if p["state"]:
                an["state"] = p["state"]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": an}) + "\n")
    m = {"version": 1, "setup_cmd": "true",
         "checks": [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick ./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"] + BASE_NOTE} for p in PROPS],
         "not_applicable": [],
         "notes": "No hooks in /repo: the checks run the real programs, built from the working tree, with a preloaded clock/fault shim."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    write()
