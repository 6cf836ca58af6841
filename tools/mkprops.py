#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (one place to edit the property texts).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
LZ="verif::lzhuf (cfg plusendi_verif)"
FB="verif::fbb (cfg plusendi_verif)"
p("L01","LZHUF compression is lossless",
 "Compressing any byte string and decompressing the result, told the original length, returns exactly the original bytes and neither step panics or fails. This includes the empty message, messages of any size (also those long enough that the adaptive code is rebuilt one or more times), and any symbol statistics, however skewed.",
 ["inputs"],"every byte string","Unit tests round one 291-byte message and three runs of one letter; repeats further than 256 bytes back, tree rebuilds, long codes and the empty message are never reached.",
 ["src/lzhuf.rs"],[("encoder (match finder, adaptive Huffman coder, bit packer)","src/lzhuf.rs Encoder, Bitbuffer"),("decoder","src/lzhuf.rs Decoder, Biterator"),("shared adaptive tree","src/lzhuf.rs LzHufState::update, reconstruct")],
 ["compressor and decompressor results"],LZ)
p("L02","Decompressor accepts every conforming LZHUF stream",
 "Any stream that is well formed in the LZHUF format used by FBB/Winlink (2048-byte window preset to spaces, repeats of 3 to 60 bytes at any distance inside the window, adaptive Huffman code whose tree is rebuilt when its total reaches 32768) is decompressed to exactly the text the format defines, whichever conforming encoder produced it. It does not matter how the encoder chose between literals and repeats, or which of several equal repeats it used.",
 ["inputs"],"every sequence of literals and in-window repeats, encoded by an independent reference encoder","Tests decode one real sample and three runs; peers choose tokens our own compressor never emits.",
 ["src/lzhuf.rs"],[("token decoding","src/lzhuf.rs Decoder::decode, decode_char, decode_position"),("position tables","src/lzhuf.rs DECODE_CODE, DECODE_LEN"),("adaptive tree","src/lzhuf.rs LzHufState")],
 ["decompressed bytes"],LZ)
p("L03","Compressor output conforms to the LZHUF format",
 "The compressor's output for any input is a well-formed LZHUF stream: an independent conforming decoder, told the original length, recovers exactly the input from it. Every repeat it contains has length 3 to 60 and refers to text still inside the window, and after the last token the stream only holds zero bits up to the next byte boundary.",
 ["inputs"],"every byte string","Tests compare four fixed outputs; interoperability with other stations must hold for every message, and a defect shared by our encoder and decoder is invisible to a self round trip.",
 ["src/lzhuf.rs"],[("bit packing","src/lzhuf.rs Bitbuffer::put_code"),("token encoding","src/lzhuf.rs Encoder::encode, encode_char, encode_position"),("adaptive tree","src/lzhuf.rs LzHufState")],
 ["compressed bytes"],LZ)
p("L04","Compressor always takes the longest available repeat",
 "At every position of the input the compressor emits a repeat covering the longest match of at least 3 and at most 60 bytes (never beyond the end of the input) that starts in the preceding 1988 bytes of text, the text being preceded by spaces; a single literal byte is emitted only when no such match exists.",
 ["inputs"],"every byte string","Tests look at four outputs; a match finder that silently loses candidates still round-trips but compresses worse, depending on the whole preceding history.",
 ["src/lzhuf.rs"],[("match index maintenance and search","src/lzhuf.rs Encoder::insert_node, delete_node"),("greedy loop","src/lzhuf.rs Encoder::encode")],
 ["token sequence of the compressed output"],LZ)
p("L05","Decompressor is total; truncation is always noticed",
 "Decompressing arbitrary bytes to any requested length always ends, either with exactly that many bytes or with an end-of-data error, never with a panic. A valid stream that lost one or more of its trailing bytes yields the end-of-data error when its full length is requested, and requesting fewer bytes of a valid stream yields the corresponding prefix of the text.",
 ["inputs","fault_sequences"],"every byte string and requested length; every truncation point of every valid stream","Tests only decode complete, valid streams with the right length; the bytes come from a remote station.",
 ["src/lzhuf.rs"],[("end-of-data detection","src/lzhuf.rs Biterator::get_bit, get_byte, UnexpectedEof"),("output bound","src/lzhuf.rs Decoder::decode")],
 ["decompressor result"],LZ)
p("L06","Message CRC is CRC-16/XMODEM",
 "The checksum computed over any byte sequence equals the bitwise CRC-16 with polynomial 0x1021, initial value 0, no reflection and no final inversion.",
 ["inputs"],"every byte sequence; every (state, byte) transition","One sample is compared; a wrong table entry only matters for messages that hit it.",
 ["src/crc16.rs"],[("table-driven update","src/crc16.rs Crc16::update, CRC_TABLE")],["checksum value"],"verif::crc16 (cfg plusendi_verif)")
p("B01","Well-formed message frames are read back exactly",
 "Every well-formed binary message frame (a title of up to 80 printable ASCII characters, a decimal offset, and data blocks of 1 to 256 bytes of which the first begins with the CRC and uncompressed size) is read as exactly the title, offset, CRC, size and block contents that were framed, leaving every following byte unread. Its message then decompresses to the original text however the compressed bytes were divided into blocks; if the compressed bytes end before the declared size is reached, decompressing reports an error instead of a text.",
 ["inputs"],"every title, offset, message text, division into blocks and trailing data","Two sample frames are parsed and their contents are not even compared.",
 ["src/fbb.rs","src/lzhuf.rs","src/crc16.rs"],[("header","src/fbb.rs header"),("blocks","src/fbb.rs data_block, data_blocks, first_data_block"),("frame","src/fbb.rs b2_message_block"),("decompression","src/fbb.rs CompressedMessage::decompress")],
 ["parsed message","decompressed text"],FB)
p("B02","Corrupted message frames are never accepted",
 "A frame is accepted only if both its one-byte checksum and its CRC-16 match its size and data bytes; if either one disagrees the frame is rejected. In particular any change confined to one byte, or to 16 consecutive bits of the size and compressed data, of a valid frame is rejected.",
 ["inputs","fault_sequences"],"every valid frame and every alteration of its checksum, CRC, size or data bytes that keeps the block structure","Tests never feed a damaged frame.",
 ["src/fbb.rs","src/crc16.rs"],[("checksum and CRC verification","src/fbb.rs b2_message_block")],["accept or reject of the frame"],FB)
p("B03","Frames can be received piecemeal; bad headers fail fast",
 "For every proper prefix of a valid frame the reader asks for more data, never accepts or rejects it, and never asks for more bytes than the frame still has to come. Input that already contradicts the frame format (wrong leading byte, header length over 88, complete but malformed header, unknown block marker) is rejected and not waited on, and a complete frame is never reported as incomplete.",
 ["inputs","schedules"],"every valid frame cut at every byte, and every malformed header or block marker","Two cut points of one sample are tested; delivery over radio cuts anywhere.",
 ["src/fbb.rs"],[("streaming parsers","src/fbb.rs header, data_block, checksum, data_blocks")],["more-needed, accept or reject outcome and byte count"],FB)
p("B04","No input crashes the message and proposal readers",
 "Whatever bytes a remote station sends and whatever logging level is active, reading them as a message frame, a proposal or an answer always ends in a value, a rejection or a request for more data, and decompressing an accepted frame ends in text or an error; nothing panics.",
 ["inputs","configurations"],"every byte string (random, structured and mutated frames and lines), with logging off and with every level on","Tests feed valid samples only, and never with the warnings of a damaged frame formatted.",
 ["src/fbb.rs","src/parser.rs","src/lzhuf.rs"],[("parsers and their diagnostics","src/fbb.rs b2_message_block and command parsers")],["absence of panics"],FB)
p("F01","FA/FB message proposals are read field by field",
 "A proposal line 'FA' or 'FB' followed by type (P, B or T), sender (1-6 bytes), mailbox (1-40), recipient (1-6), message id (1-12) and size (1-6 decimal digits), separated by single spaces and ended by a carriage return, yields exactly those fields with the size's decimal value and leaves the bytes after the line unread. Any other line ended by a carriage return is rejected, and any proper prefix of a valid line asks for more data.",
 ["inputs"],"every line of the grammar, its prefixes and near-miss mutations","No test parses a proposal.",
 ["src/fbb.rs"],[("proposal parser","src/fbb.rs fbb_proposal, sender, recipient, message_id, message_size")],["parsed fields or rejection"],FB)
p("F02","FC (B2F) proposals are read field by field",
 "A proposal line 'FC EM' followed by message id (1-12 bytes), uncompressed size and compressed size (1-6 decimal digits each), optionally followed by sender, mailbox and recipient, separated by single spaces and ended by a carriage return, yields exactly those fields, with the sizes not exchanged, and leaves the bytes after the line unread. Any other line ended by a carriage return is rejected, and any proper prefix of a valid line asks for more data.",
 ["inputs"],"every line of the grammar, its prefixes and near-miss mutations","No test parses a proposal.",
 ["src/fbb.rs"],[("proposal parser","src/fbb.rs winlink_proposal, message_size")],["parsed fields or rejection"],FB)
p("F03","Answers to proposals are attributed in order",
 "An answer 'FS ' followed by one mark per proposal of a batch (1 to 5) yields that many choices in the order given: '+', 'Y', 'H' accept from the start; '!' or 'A' with 1 to 6 decimal digits accept from that offset; '=' and 'L' defer; '-', 'N', 'R', 'E' reject; everything after the last mark stays unread. A malformed answer is rejected, and an answer cut short asks for more data.",
 ["inputs"],"every sequence of 1-5 marks with any offsets up to 999999, their prefixes and near misses","No test parses an answer.",
 ["src/fbb.rs"],[("answer parser","src/fbb.rs selection, selection_element")],["parsed choices or rejection"],FB)
p("S01","Station identities are validated whole and normalized",
 "A text is accepted as a station identity exactly if all of it is a callsign (an optional digit, one or more letters, one or more digits, a letter, then letters and digits, all ASCII), optionally followed by '-' and a one- or two-character SSID; in particular no accepted identity contains a space or a control character. The accepted identity is the upper-cased text, so spellings differing only in case are the same identity, and normalizing again changes nothing.",
 ["inputs"],"every string","Two spellings of one callsign are tested; nothing invalid is ever offered.",
 ["src/types.rs"],[("validation and normalization","src/types.rs StationId normalizer, STATION")],["result of constructing a station identity"])
p("V01","Every modem command is one well-formed VARA line",
 "Each modem command is rendered in VARA's syntax as a single line: keyword and arguments separated by exactly one space (CONNECT source target, with ' via ' and one or two digipeaters if any; MYCALL with all callsigns; LISTEN ON, OFF or CQ; COMPRESSION OFF, TEXT or FILES; BW500, BW2300 or BW2750; DISCONNECT; ABORT). The modem receives exactly that line followed by one carriage return for each command call and nothing else.",
 ["inputs"],"every command with every combination of valid station identities and modes","No test renders or sends a command.",
 ["src/modem/vara.rs"],[("command rendering","src/modem/vara.rs Display for Command, ConnectCommand, ConnectPath, MyCallSigns"),("transmission","src/modem/vara.rs manage_modem_thread")],["rendered text","bytes arriving at the modem's control port"])
p("V02","Reported modem status follows the modem's lines exactly",
 "Status lines are IAMALIVE, BUFFER n, BUSY ON/OFF, PTT ON/OFF, REGISTERED call, CONNECTED call call, DISCONNECTED, PENDING and CANCELPENDING, a call being 3 to 7 upper-case letters and digits, optionally followed by '-' and an SSID of one or two. For every sequence of such lines and every way of cutting it into TCP segments, the reported buffer size, busy state and transmit/receive request are those of the latest corresponding line, a callsign is reported as registered exactly if the modem has announced it, and the heartbeat time moves only when a heartbeat line arrived. Status lines never answer a command and replies never change a status.",
 ["histories","schedules"],"every history of status lines and replies, every segmentation","The modem code has no test at all.",
 ["src/modem/vara.rs"],[("line splitting and retained partial lines","src/modem/vara.rs do_a_thing, line"),("line grammar","src/modem/vara.rs tnc_response, update"),("status channels","src/modem/vara.rs TncStatusSender, TncStatusReceiver")],["status accessors of the modem handle"])
p("V03","Each command call gets its own reply",
 "A command call succeeds exactly if the modem's reply to that command is OK and fails exactly if it is WRONG, replies being matched to commands in the order they were sent. This holds with several calls outstanding, with replies batched, cut anywhere or mixed with status lines, and when a call is abandoned before its reply arrives (its reply is then discarded, not given to the next call).",
 ["histories","schedules"],"every history of concurrent, sequential and abandoned calls, replies and status lines","The modem code has no test at all.",
 ["src/modem/vara.rs"],[("reply queue","src/modem/vara.rs manage_modem_thread response_queue"),("call","src/modem/vara.rs VaraTnc::send_command")],["result of each command call"])
p("V04","Connect reports the outcome of this connection attempt",
 "A connect call succeeds exactly if the modem accepts the request and then reports the link as connected, and fails if the modem refuses the request or then reports it disconnected. The outcome does not depend on what happened on the same modem handle before: earlier links, failed attempts, remote disconnects or incoming-call notices already reported when the call is made.",
 ["histories","schedules"],"every history of connects, failures, remote disconnects, local disconnects and incoming-call notices on one handle","The modem code has no test at all.",
 ["src/modem/vara.rs"],[("connection wait","src/modem/vara.rs VaraTnc::connect"),("connection status channel","src/modem/vara.rs status.connection")],["result of connect"])
p("V05","Link data passes through unchanged in both directions",
 "While connected, the bytes written to the link arrive at the modem's data port and the bytes the modem sends on its data port are read from the link, in order, complete and unmodified, for any contents, sizes, buffer sizes and segmentation, also while control lines arrive. Control traffic never appears in the data and data never appears on the control port.",
 ["inputs","schedules"],"every byte sequence, read/write split, segmentation and interleaved control traffic","The modem code has no test at all.",
 ["src/modem/vara.rs"],[("AsyncRead and AsyncWrite of the link","src/modem/vara.rs VaraStream")],["bytes read from the link, bytes arriving at the data port"])
p("V06","Remote disconnect ends the link cleanly without losing data",
 "After the modem reports the link disconnected, reading yields every byte the modem had delivered on the data port before that report and then end-of-stream, and writing, flushing or shutting down fails with a connection-aborted error. This stays so however often and in whatever order the operations are repeated, and none of them panics or blocks.",
 ["histories","schedules"],"every sequence of reads, writes, flushes and shutdowns before and after a disconnect report, with any amount of unread data","The modem code has no test at all.",
 ["src/modem/vara.rs"],[("remote disconnect notification","src/modem/vara.rs VaraTnc::connect, VaraStream poll functions")],["results of link operations"])
p("V07","Giving up a live link always tells the modem, once",
 "Dropping a link that the modem has not reported as disconnected makes the modem receive a DISCONNECT command; dropping one already reported as disconnected sends nothing. An explicit disconnect or abort sends exactly one DISCONNECT or ABORT, returns the modem's reply as its result, and if the modem accepted it no further command follows.",
 ["histories"],"every way of ending a link (drop, disconnect, abort, after remote disconnect) and either reply","The modem code has no test at all.",
 ["src/modem/vara.rs"],[("drop handler and forced disconnect task","src/modem/vara.rs PinnedDrop for VaraStream, VaraTnc::connect"),("explicit end","src/modem/vara.rs VaraStream::disconnect, abort")],["commands arriving at the modem"])
p("V08","Losing the control connection fails calls and never hangs",
 "If the modem closes or resets its control connection at any point, every outstanding and every later command call and connect attempt fails with an error, and a live link reaches end-of-stream, instead of waiting forever. Nothing keeps consuming CPU afterwards and the caller's runtime stays responsive.",
 ["fault_sequences","histories"],"every point of a session at which the control connection is closed or reset, in single- and multi-threaded runtimes","The modem code has no test at all.",
 ["src/modem/vara.rs"],[("control reader","src/modem/vara.rs do_a_thing, manage_modem_thread"),("disconnect watcher","src/modem/vara.rs VaraTnc::connect")],["results of calls, CPU time"])
p("V09","Malformed control input is contained",
 "Whatever bytes arrive on the control port, at any logging level and in any segmentation, nothing panics; a line that is not exactly one well-formed status or reply line changes no reported status and does not make any command call succeed or any connect attempt succeed. Well-formed lines before it have taken effect.",
 ["inputs","configurations"],"every malformed, truncated, over-long or non-text line at any position in the stream, with logging off and with every level on","The modem code has no test at all.",
 ["src/modem/vara.rs","src/parser.rs","src/types.rs"],[("line grammar and error reporting","src/modem/vara.rs tnc_response, do_a_thing; src/parser.rs")],["absence of panics, status accessors, results of calls"])
p("V10","Dropping the modem handle releases everything",
 "After the modem handle is dropped, its background work ends and its control and data connections are closed as soon as the commands already sent have been answered (immediately if none is outstanding), including commands whose calls were abandoned. Until then it waits without busy-looping and the runtime stays responsive.",
 ["histories","schedules"],"every history of completed, outstanding and abandoned commands before the drop, in single- and multi-threaded runtimes","The modem code has no test at all.",
 ["src/modem/vara.rs"],[("shutdown drain","src/modem/vara.rs manage_modem_thread")],["connection closure at the modem, CPU time"])
p("V11","The modem is reached at the configured addresses",
 "Building a modem handle connects to the configured host at the control port and at the data port, the data port being one above the control port unless set explicitly. Unless set, the host is 127.0.0.1 and the control port 8300. If the control port is 65535 and no data port is set, building fails with an invalid-input error without connecting, and if either connection is refused building fails with that error.",
 ["configurations"],"every host, control port and optional data port, in any order of setting them","The modem code has no test at all.",
 ["src/modem/vara.rs"],[("builder","src/modem/vara.rs VaraTncBuilder")],["ports that receive a connection, build result"])
p("R01","Rig commands are delivered exactly, in order",
 "The rig receives exactly 'TX;' or 'RX;' for each submitted transmit or receive command, in submission order, none lost, repeated or interleaved, whatever the rig sends back and however its input and output are fragmented. After the command side is closed all queued commands have been written and the manager ends successfully.",
 ["histories","schedules"],"every command sequence, every rig output, every fragmentation of reads and writes","The rig code has no test at all.",
 ["src/rig/elecraft/kx3.rs"],[("rig manager loop","src/rig/elecraft/kx3.rs manage_rig_thread"),("rendering","src/rig/elecraft/kx3.rs Display for Command, TransmitState")],["bytes written to the rig, result of the manager"])
p("R02","Rig input and rig failure are handled cleanly",
 "Whatever bytes the rig sends, at any logging level, the manager neither panics nor stops obeying commands. When the rig's stream ends or a read or write fails, the manager ends with an error instead of spinning or waiting forever.",
 ["inputs","fault_sequences","configurations"],"every rig output including non-text bytes and empty responses; end-of-file or I/O error at any operation; logging off and every level on","The rig code has no test at all.",
 ["src/rig/elecraft/kx3.rs"],[("rig manager loop","src/rig/elecraft/kx3.rs manage_rig_thread")],["result of the manager, bytes written to the rig"])
p("M01","The command-line client follows the connection script",
 "The program sends the modem MYCALL with its own callsign, COMPRESSION TEXT, BW2300 and CONNECT own target in that order, each after the previous one was answered OK, then prints each carriage-return-terminated line from the remote (including empty lines and non-text bytes) once, in order, whatever the segmentation and logging level. Nothing is sent on the link before the remote's prompt line (the first line ending in '>') and the operator's Enter, and then exactly one '[plusendi-version-B2FWIHJM$]' line and one 'FF' line. Once the remote has disconnected after that, the program waits for another Enter and then ends successfully.",
 ["inputs","schedules"],"every pair of callsigns, every sequence of remote lines, every segmentation","main.rs has no test.",
 ["src/main.rs"],[("session script","src/main.rs main")],["control and data port traffic, standard output, exit status"])
p("M02","The rig follows the modem's transmit requests",
 "From the CONNECT command on, each transmit or receive request of the modem reaches the rig as 'TX;' or 'RX;' in order, except that requests superseded by a later one before they were passed on may be skipped. After any burst of requests the last command the rig received is the modem's latest request. No other bytes are sent to the rig, whatever the rig itself sends.",
 ["histories","schedules"],"every sequence and timing of PTT requests during a session","main.rs has no test.",
 ["src/main.rs","src/rig/elecraft/kx3.rs","src/modem/vara.rs"],[("rig relay task","src/main.rs main"),("transceiver channel","src/modem/vara.rs subscribe_rig_command")],["bytes arriving at the rig's serial port"])
p("M03","A refused or failed session ends the program with an error",
 "If the modem or the rig cannot be opened, or before the remote's prompt the modem refuses a setup command or the connection, sends something that is not a line of its language, breaks off, or reports the remote disconnected, the program ends by itself with a non-zero exit status, without a panic and without sending anything on the link or any later command of its script. Invalid callsigns on the command line are rejected before anything is contacted.",
 ["fault_sequences","inputs"],"every step of the session script up to the prompt at which the modem or remote refuses, disconnects or closes; every invalid callsign argument","main.rs has no test.",
 ["src/main.rs","src/modem/vara.rs","src/types.rs"],[("session script and error propagation","src/main.rs main")],["exit status, traffic at the modem's ports"])
p("M04","The command line decides which modem and rig are used",
 "The program connects once to the control port and once to the data port of the given modem address and to nothing else, and by the time it asks for the connection it has set the given rig device to the given speed, whatever the order and spelling of the options ('--name value', '--name=value', '-d' for '--de', '-l' for '--log', before or after the target). Unless given, the address is 127.0.0.1, the control port 8300 and the data port the one above the control port. A missing target, own callsign, rig device or speed, an unknown argument, an address, port or log filter that cannot be read, a speed other than 4800, 9600, 19200 or 38400, or control port 65535 without a data port ends the program with a non-zero exit status, without a panic and before anything is contacted.",
 ["inputs"],"every combination of options, values, orders and spellings","main.rs has no test.",
 ["src/main.rs","src/modem/vara.rs"],[("options and their use","src/main.rs Opt, main"),("defaults and invalid ports","src/modem/vara.rs VaraTncBuilder")],["connections made, the rig line's speed, exit status"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
