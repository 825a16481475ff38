import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}]}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SV="internal/server/server.go"; SE="internal/server/session.go"; HT="internal/server/http.go"; WR="internal/webrtc/webrtc.go"; LK="internal/webrtc/livekit/livekit.go"; RE="internal/webrtc/recorder/recorder.go"; WM="internal/webrtc/recorder/webm.go"; IV="internal/webrtc/recorder/ivfwriter.go"
U="internal/webrtc/utils/"
NT="No test touches the server, the adapters or the recorder: the suite covers only message validation and the packet bookkeeping structures on fixed examples. "
p("A01","Every start request gets exactly one truthful response",
 "Every well-formed startRecording message is answered by exactly one startRecordingResponse carrying its session id: status 'ok' with the file path (and, for mediasoup, a decodable SDP answer) and no error if and only if a recording session is live afterwards, otherwise status 'failed' with a non-empty error and neither SDP nor file path. This holds for every adapter, every combination of present and missing request fields, and whichever step of setting up the recording fails.",
 ["inputs","fault_sequences"],"all combinations of request fields for both adapters and the legacy form, times every single failing step (file system, offer decoding, peer connection, room connection, subscription)",
 NT+"They cannot enumerate request shapes times failing steps.",[SV,SE,WR,LK],"request validation, recorder and adapter initialisation, response publication")
p("A02","Session ids are unique while live and free again afterwards",
 "While a session is live, a further start with its id is refused and leaves that session undisturbed (still recording, still stoppable, file untouched). After a failed start, or once a session's end has been announced, the id is free: a stop for it produces no message and a new start with it is judged only on its own merits. Commands take effect in the order in which they were sent, also when sent without waiting for answers. Sessions of different ids, however alike or many, do not concern each other.",
 ["histories","fault_sequences"],"all sequences up to a bounded length of start/stop/connection-loss/track-end/failing-start over two ids and both adapters",
 NT+"The guarantee ranges over histories of messages and failures.",[SV,SE],"session table keyed by recordingSessionId")
p("A03","Each session ends with exactly one recordingStopped",
 "For every session that was started successfully, whatever combination and interleaving of stop requests, connection loss and track endings occurs, exactly one recordingStopped with its id is published, and none for any other id. When that message is published the recording file is already complete and closed, nothing is written to it afterwards, and no other message about that session follows it.",
 ["schedules","histories"],"all interleavings, up to a deviation bound, of stop requests, ICE state changes, track ends and media arriving for a session",
 NT+"The defects here are races between the message handler, the ICE callback, and per-track loops.",[SV,SE,WR,LK,WM],"session end paths: stop request, ICE state callback, flow callback with closed=true")
p("A04","Late events of an ended session never affect its successor",
 "After a session has ended and its id has been used for a new session, events still in flight for the old one (connection state changes, track endings, late packets) neither end the new session, nor write into its file, nor produce messages that carry its id. The new session stays stoppable with exactly one recordingStopped.",
 ["schedules","histories"],"all interleavings, up to a deviation bound, of the old session's late callbacks with the start, media and stop of the successor",
 NT+"It needs a reused id and an event delivered after the end.",[SV,SE,WR],"session table deletion by id from asynchronous callbacks")
p("A05","No incoming message can crash or wedge the service",
 "Whatever bytes arrive on the command channel or on the response channel the HTTP helper listens to, the service neither terminates nor stops handling messages: a status query received afterwards is still answered. Messages that are not valid commands produce no response and create no session.",
 ["inputs","histories"],"a systematic family of malformed messages (every JSON value shape for every field of every known message, truncations, unknown ids, oversized values), singly and in pairs, each followed by a status query",
 "Tests decode only well-formed messages and never drive the handler.",[SV,HT,"internal/pubsub/events/decode.go","internal/pubsub/events/events.go","internal/webrtc/signal/signal.go"],"decoding and dispatch of messages")
p("A06","Recorder status is announced at start-up and on every query",
 "Exactly one recorderStatus message with the application's version and instance id and the current time in milliseconds is published when the command subscription becomes active, and exactly one in response to every getRecorderStatus, at any point in the life of any sessions. No other message triggers one.",
 ["histories","schedules"],"all short histories of commands and session events with status queries interleaved",
 "No test drives the handler.",[SV,"internal/pubsub/events/events.go"],"status publication")
p("A07","Ended and failed recordings leave nothing behind",
 "Once a session has ended, or its start has failed, the recorder has released everything it held for it: the peer connection is closed or the LiveKit room left, the recording files are closed, and the background activity serving it has finished. The exported session gauge equals the number of live sessions at every quiescent point.",
 ["schedules","fault_sequences","histories"],"all failing start steps, all ways to end a session, and their interleavings up to a deviation bound",
 NT+"Leaks are visible only over failure paths and end races.",[SV,SE,WR,LK,WM,"internal/prometheus/prometheus.go"],"session teardown and the sessions gauge")
p("A08","RTP flow notifications are truthful and alternate",
 "For every track, recordingRtpStatusChanged messages alternate starting with 'flowing': 'flowing' is published within half a second after packets begin to be recorded, and 'not_flowing' within about two seconds after they cease, and neither is published while the opposite condition holds. No such message is published for a session after its recordingStopped or before its successful start response.",
 ["schedules","histories"],"all on/off media patterns over a bounded time grid, with session end at every point, for one and two tracks, up to a deviation bound",
 "No test runs the flow monitor; it depends on timers and arrivals.",[WR,SE],"periodic flow monitor per track")
p("A09","Reported media timestamps are the recorded duration in milliseconds",
 "timestampHR in a flow message is the recorded duration of the track it is about (for LiveKit, of the furthest track), and in the stop message that of the video, or of the audio if no video was recorded: whole milliseconds on the recording's own time line, zero before anything is recorded, never negative. timestampUTC is the time of the event.",
 ["histories","inputs"],"all short media histories crossed with the point at which the stop or flow change happens",
 "No test inspects messages against recorded media.",[SV,SE,WR,WM],"conversion of recorder timestamps into messages")
p("A10","The SDP answer lets in exactly what can be recorded",
 "For every bundled offer whose audio and video sections all include Opus or VP8, the start succeeds and its answer has the offer's media sections in order with their mids, complete with ICE credentials and candidates, fingerprint and set-up role; the first section of each kind that offers to send is accepted for receiving with exactly the offer's payload type for Opus or VP8, and with the generic and picture-loss feedback where offered. A first section without Opus or VP8 is never accepted.",
 ["inputs"],"all offers up to a bounded number of media sections from a family of codecs and payload types, times directions, kinds of mids and feedback",
 "No test negotiates with an offer.",[WR,SE],"codec and transceiver set-up, answer after gathering")
p("B01","All files are created inside the recording directory",
 "Whatever file name a start request carries, every file and directory the service creates, opens for writing or truncates lies inside the configured recording directory, and a request whose name points elsewhere is refused without touching the file system. With writing to the null device configured, nothing is created at all.",
 ["inputs","configurations"],"all file names of up to six segments over an adversarial alphabet (.., ., empty, absolute, nested, control characters, extensions) times configurations",
 "No test calls file preparation.",[RE,WM,IV],"path construction and validation")
p("B02","A recording never overwrites or shares a file",
 "A start naming a file that already exists, or that a live session is going to write, is refused; the earlier content is never truncated, overwritten or interleaved. Two live sessions never write the same file, whatever spelling of its path their requests use, including the IVF copy. Recordings of different files do not get into each other's way, however alike their names are.",
 ["histories","inputs","schedules"],"all histories of up to three starts over colliding spellings of names, with media arriving in any order and sessions ending in between",
 "No test creates files.",[RE,WM,IV],"existence check at start versus file creation at first keyframe")
p("B03","Files and directories get the configured permissions and reported path",
 "The file path reported by a successful start is exactly the file that is later written, and it is created with the configured file mode; missing parent directories are created with the configured directory mode. An invalid mode (the directory mode matters only when a directory has to be created), a missing recording directory or an unsupported extension makes the start fail, naming the problem, without leaving directories or files behind.",
 ["configurations","inputs"],"all combinations of mode strings, existing and missing directories, names and extensions",
 "No test calls file preparation.",[RE,WM],"mode parsing, directory creation, file creation")
p("C01","Sequence unwrapping is exact",
 "For every sequence of 16-bit numbers in which each differs from the true highest so far by less than half the range, unwrapping yields values congruent to the input whose differences equal the true distances, across any number of wrap-arounds, and a repeated number gets the same value again. Results are never negative: the one exception to exactness is that a number preceding the first one received, which would become zero or less, may shift the numbering up by one cycle of the range, once.",
 ["inputs","histories"],"all input sequences to a bounded depth over boundary distances from every boundary start value, including multiple wraps and reordering around the wrap",
 "Tests sample three fixed sequences.",[U+"sequence_unwrapper.go"],"wrap counter and highest-seen tracking")
p("C02","The jitter buffer delivers each packet once and in order",
 "Packets leave the jitter buffer in strictly increasing order, never twice, never as holes, and each is the packet that was accepted under that number. Every accepted packet is eventually delivered if no gap precedes it, unless the window has moved past it; duplicates and packets behind the window never change or repeat what is delivered.",
 ["histories"],"all sequences of add/take/skip operations with boundary numbers to a bounded depth, deduplicated on the real object's state",
 "Tests run a few fixed sequences.",[U+"jitter_buffer.go"],"ring buffer, window start and end")
p("C03","A missing packet delays delivery only up to the timeout",
 "A missing packet holds back later ones until it arrives or the configured timeout has passed since it was first waited for, never longer once packets are requested again and never shorter. Giving up on a packet is reported exactly once with its number, and after a give-up delivery resumes with the next packet present.",
 ["histories","schedules"],"all operation sequences with virtual time steps around the timeout to a bounded depth",
 "One fixed test uses real sleeps.",[U+"jitter_buffer.go"],"per-packet timers and skip reporting")
p("C04","Loss bookkeeping reports exactly the missing numbers",
 "After any arrival history, the reported missing numbers are, in order, exactly those between the last consecutively received number and the newest (less the requested margin) that were neither received nor given up on, within the window. Received numbers are never reported, and numbers are never forgotten while inside the window, across wrap-around.",
 ["histories"],"all add/ignore/query sequences to a bounded depth over boundary distances, deduplicated on the real object's state",
 "Tests run fixed sequences.",[U+"receive_log.go"],"bitmap ring and last-consecutive cursor")
p("C05","NACK packing loses and invents nothing",
 "For every ascending list of distinct missing sequence numbers, including lists crossing the wrap-around, the packed pairs unpack to exactly that list in order. No pair overlaps another, and the empty list packs to nothing.",
 ["inputs"],"all subsets of windows around boundary values, exhaustively",
 "Tests check a few lists.",[U+"nack.go"],"bitmask packing")
p("C06","Retransmission requests are accurate and bounded",
 "While a mediasoup track is received, every retransmission request names only packets of that track that have not arrived, addressed to the track's own SSRC; each packet still missing and more than ten behind the newest is requested repeatedly, but at most ten times. After that it is given up on and never requested again, and delivery proceeds past it.",
 ["histories","schedules","fault_sequences"],"all loss and late-arrival patterns of a bounded window, with wrap-around positions, under virtual time and interleavings of the two loops",
 "No test runs the loop; needs timers, loss and wrap-around.",[WR,U+"receive_log.go",U+"jitter_buffer.go",U+"nack.go"],"NACK goroutine and its tracker")
p("C07","The retransmission history returns only the packet asked for",
 "Looking up a sequence number yields the packet last stored under exactly that number if it is within the window behind the newest, and nothing otherwise. This holds across wrap-around, gaps, duplicates and late insertions.",
 ["histories"],"all add/get sequences to a bounded depth over boundary distances",
 "Tests run fixed sequences.",[U+"send_buffer.go"],"ring indexed by sequence modulo size")
p("C08","Mediasoup media reaches the recording in order, once, without silent loss",
 "For every arrival order, duplication and loss pattern of a track's packets within the buffer window, the packets handed to the recorder are in sending order, without duplicates, and contain every packet that arrived before it was given up on. Whenever packets of a video track have been given up on (timeout or exhausted retransmission), that is signalled to the video assembly before the next packet is handed over; losses of an audio track are not.",
 ["histories","schedules"],"all permutations, duplicates and losses of a bounded window at boundary sequence numbers under virtual time",
 "No test runs the receive loop.",[WR,U+"jitter_buffer.go",U+"sequence_unwrapper.go"],"receive loop: unwrap, jitter buffer, skip notification, push")
p("D01","Every finished recording is a well-formed WebM file",
 "For every media history, a recording that was closed is either absent (no recordable media) or a complete WebM document: header, segment with one track entry per announced track of the right codec and kind, and blocks that belong to declared tracks, with non-decreasing cluster times. Blocks of different tracks are interleaved in order of time, even when one track arrives later than the other by up to the video packet queue. The video track's dimensions are those of the first recorded keyframe.",
 ["histories","inputs"],"all packet histories to a bounded depth over both samplers, track sets, and queue sizes, parsed by an independent reader",
 NT,[WM],"writer initialisation and closing")
p("D02","Every recorded video frame is exactly one sent frame",
 "Every video block in the recording is byte for byte the payload of one frame as sent, complete, in sending order and at most once. Frames with a missing packet never appear, nor do merged fragments of different frames, whatever is lost, duplicated, or reordered within the packet queue size before the recorder.",
 ["histories","inputs"],"all loss, duplication and bounded reordering patterns over short streams of frames of one to three packets, with and without picture ids, at sequence and picture-id wrap-around, for both samplers",
 NT,[WM],"frame assembly")
p("D03","Video starts at a keyframe and restarts at a keyframe after loss",
 "The first recorded video frame is a keyframe, and a video block is flagged as keyframe exactly if its frame is one, an audio block always. With the default assembly, after it has discarded or missed part of the stream, no dependent frame is recorded until the next complete keyframe, and complete frames are recorded again from that keyframe on; with the other one complete frames are recorded again once the loss has left its queue. When nothing of the video is lost, every frame from the first keyframe on is recorded, whatever audio packets are lost next to it.",
 ["histories","inputs"],"all loss patterns over short streams with keyframes at every position",
 NT,[WM],"keyframe gating in the custom sampler")
p("D04","Recorded timestamps follow the media clock",
 "The time of each recorded video frame relative to the first equals the difference of the RTP timestamps within a millisecond, also across the 32-bit wrap and across discarded frames, and never decreases. Audio times advance by the duration of the audio.",
 ["inputs","histories"],"all timestamp increments from a boundary set over short streams with loss, at wrap positions, for both samplers",
 NT,[WM],"timestamp accumulation")
p("D05","All received audio is recorded",
 "Every audio packet delivered in order from the moment the recording has started appears as one block, byte for byte, in order, exactly once, in audio-only and in mixed recordings. At most the packets still inside the reordering queue when the recording is closed are missing.",
 ["histories"],"all interleavings of audio and video deliveries to a bounded depth, with losses",
 NT,[WM],"audio sample builder and writer")
p("D06","A running recording is never truncated",
 "Once a frame has been written, no later event of the same session (keyframes, a track that stays silent, a late-announced track, losses, further packets) makes the recorder reopen, truncate or abandon the file. What had been recorded stays in the final file.",
 ["histories"],"all interleavings of track announcements, silence, audio and video to a bounded depth",
 NT,[WM],"writer re-initialisation condition")
p("D07","The IVF copy mirrors the recorded video",
 "With the IVF copy enabled, the copy of a closed recording is a valid IVF file whose frames are exactly the video frames recorded in the WebM file, in the same order, with the RTP timestamps of the frames, a matching frame count, and the dimensions of the latest keyframe.",
 ["histories","configurations"],"all short media histories for both samplers with the option on, plus streams crossing the header refresh period",
 NT,[WM,IV],"IVF writer")
p("D08","No media payload can crash the recorder",
 "Whatever the payloads, markers, sequence numbers and timestamps of the RTP packets of either track, the recorder neither panics nor blocks, and later valid media is still recorded. Closing is idempotent and may happen concurrently with media.",
 ["inputs","schedules"],"all short payloads over an adversarial byte alphabet in sequences of up to three packets; close interleaved with pushes at every point",
 NT,[WM,IV],"VP8 descriptor parsing and frame handling")
p("D09","Keyframes are requested when needed and not more than once a second",
 "Whenever the default video assembly misses or discards part of the stream, and with all media arriving before the first keyframe, a keyframe request goes out at once if more than a second has passed since the recorder's previous one. The recorder's own requests are never closer together than one second; while a video track is live its sender is asked for one at least every few seconds.",
 ["histories","schedules"],"all loss patterns times time steps around one second to a bounded depth",
 NT,[WM],"request throttling")
p("D10","What was written before a crash is recoverable",
 "If the process dies at any point of writing, the bytes already on disk form a prefix of the final WebM file from which every block written completely can be read. The recorder only ever appends to the WebM file, and in a recording of a single track every frame is on disk as soon as it is complete.",
 ["crash_points"],"every prefix, at every write boundary and torn write, of the write history of bounded recordings",
 NT,[WM],"streamed cluster writing")
p("D11","Storage failures are contained",
 "Whatever file operation of one recording fails, at any time (opening, writing or closing the recording or its copy, a full disk), the service neither crashes nor wedges: other sessions keep recording and finish with complete files, further commands are handled, and the affected session can still be stopped with exactly one recordingStopped. What was written before the failure stays on disk.",
 ["fault_sequences"],"every single file operation of a recording failing, partial writes included, with one and two sessions",
 NT+"No test makes any file operation fail.",[WM,IV,RE,SV],"recording writers running on the media goroutines and the muxer's own goroutine")
p("L01","Exactly the requested LiveKit tracks are recorded",
 "For every set of published tracks in a room and every requested list, the service subscribes to exactly the requested published tracks, does not subscribe to anything else, and records exactly the media of subscribed tracks of supported codecs, audio as audio and video as video. It joins the room of the request, every recording under an identity of its own. A failing room connection or subscription fails the start and leaves the room.",
 ["inputs","fault_sequences","histories"],"all assignments of up to three participants and tracks, requested subsets and failing steps",
 NT,[LK,SV],"subscription by track id")
p("L02","LiveKit callbacks never deadlock",
 "However subscriptions, packets, keyframe requests, flow checks, dropped packets and the end of the session interleave, every callback and background loop completes: media keeps being recorded and a stop is always answered.",
 ["schedules"],"all interleavings up to a deviation bound of two track subscriptions, media with losses, and stop",
 NT+"Lock-order inversions need a specific schedule.",[LK,WM],"locks of the adapter and the recorder")
p("L03","LiveKit keyframe requests reach the owners of the recorded video",
 "A keyframe request for a LiveKit session is delivered for the SSRC of every subscribed video track, to the participants owning recorded tracks and to nobody else, periodically while the track is live and promptly when the jitter buffer drops packets. No request is made after the session has ended.",
 ["histories","schedules"],"all short histories of subscriptions, drops and time steps",
 NT,[LK],"PLI ticker and requester")
p("L04","LiveKit media reaches the recording in order, once, without silent loss",
 "Whatever the network does to the packets of the subscribed LiveKit tracks (losses, packets arriving late or out of order, bursts of padding, sequence numbers and timestamps that wrap), every packet that arrives while it is waited for (200 ms of media) is recorded in sending order, byte for byte and once, audio as well as video; padding is never taken for loss, and after lost packets video resumes with the next keyframe and audio with the next packet. At most a packet or two of audio next to a lost one, the video frames the reordering library discards as too old, and what still waits behind a gap at the end are missing.",
 ["inputs","fault_sequences"],"all frame and padding sequences of bounded length times all fates of a bounded number of packets, judged against the real reordering library plus the reference frame assembly",
 NT,[LK],"padding-aware read loop around the reordering library")
p("R01","Every message on the command channel is handled once, in order",
 "While the redis connection is up, each message published to the subscribed channel is handed to the handler exactly once, in order, with its exact bytes, after the start callback has run exactly once. When the connection fails, the subscription fails, or the context is cancelled, listening ends with its goroutines finished instead of hanging.",
 ["histories","fault_sequences","schedules"],"all sequences to a bounded depth of messages, pongs, errors and cancellation, with failing dial, subscribe, ping and unsubscribe",
 "No test exercises redis.",["internal/pubsub/redis/redis.go","internal/pubsub/redis.go"],"listen loop, health check")
p("R02","Published messages reach the configured channel intact",
 "Every published message results in exactly one PUBLISH of exactly its bytes on exactly the requested channel over an authenticated connection that is closed afterwards. Failures to dial or publish do not crash the service or block later messages.",
 ["inputs","fault_sequences"],"all failure points of a publish, repeated and concurrent publishes",
 "No test exercises redis.",["internal/pubsub/redis/redis.go","internal/pubsub/redis.go","internal/pubsub/pubsub.go"],"publish path")
p("H01","Every HTTP offer gets its own answer",
 "Each POST of an SDP offer to the test HTTP endpoint is answered with the SDP answer of the recording it started, also when several requests are in flight, even within the same second, and with an error response when the recording failed. Anything but a POST with a body is rejected, and unrelated responses on the channel are ignored.",
 ["schedules","inputs"],"all interleavings up to a deviation bound of two concurrent requests, responses in either order, failed and foreign responses",
 "No test exercises HTTP.",[HT],"answer channel map")
p("H02","The HTTP page serves the recordings and nothing else",
 "With the test HTTP endpoint enabled, the page is served at / and every file of the recording directory under /media/ by its path, whole, in ranges, or its size only; a recording in progress is served as far as it is written and without disturbing its session. However a request spells its path (dots, encoded dots and slashes, backslashes, empty segments) and however the directory is spelled in the configuration, no file outside of the recording directory is served, nothing on the disk is changed, and no file is left open.",
 ["inputs","configurations","schedules"],"all request paths to a bounded number of tokens from an alphabet of path spellings, for all spellings of the recording directory; every file by its exact path; fetches of a recording next to its media and stop in all schedules to a deviation bound",
 "No test exercises HTTP.",[HT,SV],"file server over the recording directory")
p("E01","Messages decode to exactly what they say",
 "Every message the recorder can send decodes back to the same message; every command with each combination of optional fields decodes to those fields; validation accepts a start request exactly when the documented required fields for its adapter are present.",
 ["inputs"],"all combinations of presence and value class of all fields of all messages",
 "Tests cover a dozen combinations.",["internal/pubsub/events/events.go","internal/pubsub/events/decode.go"],"json encoding, decode dispatch, validation")
p("G01","Environment overrides file overrides defaults, per setting",
 "For every documented setting, the effective value is the environment variable's if set, else the configuration file's if present there, else the default, independently of which other settings are given.",
 ["configurations"],"every setting times every source combination, and all pairs of settings from different sources",
 "No test loads configuration.",["internal/config/config.go","internal/config/loader.go","internal/app/app.go"],"gonfig file and env loaders over defaults")
p("G02","Dumping a setting prints its effective value",
 "For every path into the effective configuration, --dump prints the value at that path as YAML and exits 0; for every path that does not exist it prints nothing and exits non-zero (a setting whose value is empty may be reported either way). It never starts the service.",
 ["configurations","inputs"],"every path of the configuration tree and every one-step mutation of each",
 "No test runs the binary.",["internal/app/config.go","internal/app/app.go"],"dump path walk")
p("G03","Reloading the configuration is safe",
 "On SIGHUP the configuration is read again, any number of times: recordings started afterwards follow the new values (a setting no longer in the file is back at its default), as do the response channel and the log level, while recordings in progress, the subscription and the answers to commands are undisturbed. A file that cannot be loaded leaves the previous configuration in effect and the service running.",
 ["histories","schedules"],"all sequences to a bounded depth of edits, reloads of good and broken files, starts, media, stops and queries; all schedules to a deviation bound of a reload next to a start, a stop and another reload",
 "No test runs the program or sends it a signal.",["internal/app/app.go","internal/app/config.go",SV],"signal handler replacing the shared configuration")
p("G04","The service starts what it is configured for and ends with a telling status",
 "At its start the program connects to the configured redis, subscribes to the configured channel, serves the HTTP page and the metrics exactly if enabled, at the configured addresses, and applies the log level; every setting for WebRTC, LiveKit and recording reaches the place where it is used. An exported metric always gives the number of sessions in progress. An interrupt ends the program with status 0; a configuration that cannot be loaded, an unknown adapter, a redis that refuses or a connection that is lost ends it with another status instead of leaving it running deaf.",
 ["configurations","fault_sequences","schedules"],"all combinations of the start-up settings, all failing steps of the start, all ends after each of a family of histories, all schedules to a deviation bound of an interrupt",
 "No test runs the program.",["internal/app/app.go","internal/prometheus/prometheus.go","internal/pubsub/pubsub.go",WR,LK],"wiring of configuration, adapters and signal handlers")
p("G05","Asking for help or the version never starts the service",
 "Whenever its arguments ask for help or the version, whatever else they say, in any order and spelling, and whatever the configuration file and the environment contain (a file that cannot be loaded, everything enabled), the program prints its name and version (and for help every option), exits with status 0, connects to nothing and serves nothing.",
 ["inputs","configurations"],"all argument sequences to a bounded length that ask for help or the version, times configuration files and environments",
 "No test runs the program.",["internal/app/app.go"],"arguments handled before the configuration is loaded")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
