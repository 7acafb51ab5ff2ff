"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))
SB='stream2py/stream_buffer.py'; BR='stream2py/buffer_reader.py'; LD='stream2py/utility/locked_sorted_deque.py'
SD='stream2py/utility/sorted_deque.py'; RW='stream2py/utility/reader_writer_lock.py'; SS='stream2py/stream_source.py'
SR='stream2py/source_reader.py'; SI='stream2py/simply.py'; HT='stream2py/sources/http.py'; UT='stream2py/util.py'; SC='stream2py/utility/sorted_collection.py'

p('C01','Reader calls are atomic on one ordered, bounded window',
 "Every reader call (reading one or n items, next, head, tail, and range with any of its options) made while the source is appending, evicting or being manually dropped returns exactly what it would return if all overlapping calls had run one at a time, in some order consistent with real time, against a key-ordered window of the most recent maxlen items and a cursor private to that reader.",
 ['schedules','histories','inputs'],'every interleaving of any number of readers with the reading thread and manual drops, every item/key sequence and option combination',
 'tests read from one thread after a fixed sleep; no test overlaps a reader call with an append or an eviction, and only a handful of option combinations are sampled',
 [BR,SB,LD,SD],[('shared reader lock around each query','BufferReader.read/range/head/tail'),('exclusive writer lock around append and drop','_SourceBuffer.append/drop'),('bounded deques of keys and items kept in step','SortedDeque.append/drop')],
 [('window','most recent items, key ordered','_SourceBuffer._buffer'),('cursor','last item/key seen','BufferReader._last_item/_last_key')],
 ['BufferReader.read','BufferReader.range','BufferReader.head','BufferReader.tail','BufferReader.last_item'])

p('C02','Each consumer gets the stream in order, once, whole up to eviction',
 "Whatever the relative speeds of source and consumers, the successive items a consumer obtains by iterating, next() or reading (singly or in chunks) are the source's own items, unaltered, in strictly increasing key order and without repeats; an item is skipped only if at least maxlen newer items had been read from the source, or it had been dropped manually, before the consumer could take it.",
 ['schedules','histories','inputs'],'every interleaving, consumer lag, chunk size, buffer length, item value (including falsy or oddly comparing ones)',
 'tests consume a handful of tuples from one reader with a buffer that never overflows',
 [BR,SB,SD],[('cursor search by key','BufferReader.read -> find_gt'),('bounded deque eviction','SortedDeque maxlen'),('read loop appends every non-None read','StreamBuffer._run')],
 [('cursor','last key seen','BufferReader._last_key')],['iter(reader)','next(reader)','reader.read(n=..)','next(stream_buffer)'])

p('C03','With auto-drop off, nothing is lost and the window never overfills',
 "With automatic dropping disabled, every item read from the source stays in the window until it is manually dropped, the window never holds more than its maximum length, the source is not read while the window is full, and once space is made (or if no maximum was set) reading goes on; with automatic dropping enabled a manual drop is refused.",
 ['schedules','histories','configurations'],'every interleaving of drops with the reading thread and consumers, every maximum length including none, every drop size',
 'no test uses auto_drop=False at all',
 [SB,SD],[('full check before reading','StreamBuffer._run'),('drop refuses in auto mode','StreamBuffer.drop')],
 [('occupancy','number of retained items','_SourceBuffer')],['StreamBuffer.drop','source.read calls','reader results'])

p('C04','End of stream is signalled exactly when stopped and drained',
 "A consumer is told the stream has ended (iteration ends, next() raises StopIteration, a blocking read returns None) only if at some instant during that call the stream was stopped and the consumer had nothing left to take; while the stream runs next() answers None only when nothing new is there, and after the stop every remaining item is still delivered before the end is signalled, every time it is asked.",
 ['schedules','crash_points','histories'],'every instant at which the stream stops or its source fails relative to each step of a consumer call, with any backlog',
 'tests stop the stream while the consumer is idle or already drained; the window between "no data" and "is it stopped" is never hit',
 [BR,SB],[('stop flag and emptiness checks','BufferReader.__next__/__iter__/read(blocking=True)')],
 [('stop flag','set when the session ends','StreamBuffer._stop_event')],['for x in reader','next(reader)','next(reader, default)','reader.read(blocking=True)'])

p('C05','Per session the source is opened, read and closed in order, once each',
 "In every session, however it ends (stop, exception while reading, keying or storing an item, restart), the source is opened exactly once before the first read, is read by one thread at a time, and is closed exactly once after the last read; a source operation of one session never overlaps or follows into the next, and an error raised by closing never escapes to the user.",
 ['schedules','fault_sequences','crash_points'],'every start/stop/restart sequence from any threads, slow or failing source calls at any point',
 'tests close cleanly with instantaneous sources; no test has a read in flight at a stop or restart, nor a failing close',
 [SB],[('read loop with finally-close','StreamBuffer._run'),('start lock','StreamBuffer.start')],
 [('session thread','the thread reading the source','StreamBuffer._read_to_buffer_thread')],['source.open','source.read','source.close'])

p('C06','Stopping is bounded and final',
 "stop(), called from any thread (the source's own included), returns within two seconds even if the source is stuck or polled rarely; a source whose pending read returns within half a second has been closed by the time stop() returns, a slower one is closed as soon as its pending read returns; in no case is a read begun after stop() has returned, and join() returns only once the source is closed.",
 ['schedules','fault_sequences','configurations'],'every poll interval, read latency and instant of stopping relative to the read loop, repeated and concurrent stops',
 'tests never look at the source after stop and use short poll intervals only',
 [SB],[('stop flag and wait','StreamBuffer.stop'),('interruptible idle wait','StreamBuffer._run')],
 [('stop flag','','StreamBuffer._stop_event')],['StreamBuffer.stop','StreamBuffer.join','source.read','source.close'])

p('C07','A restarted stream is a fresh session',
 "After a stop or a source failure the stream can be started again any number of times; readers made since the latest start (and next() on the stream itself) see only items read from the source since that start, beginning with the oldest retained, readers of an earlier session keep seeing exactly that session's items and that it is stopped, and nothing left over from an earlier session reaches the new one.",
 ['schedules','histories','fault_sequences'],'every sequence of starts, stops and failures, at any instant relative to slow reads and idle waits of the previous session',
 'one test restarts once, after the previous thread is long gone',
 [SB],[('per-session stop event and buffer','StreamBuffer._set_read_to_buffer_thread_and_source_buffer/_open')],
 [('session','stop event + buffer + thread','StreamBuffer')],['StreamBuffer.start/stop/mk_reader','next(stream_buffer)','reader.is_stopped','reader.is_same_buffer'])

p('C08','A failed start leaves nothing behind',
 "If starting fails (the source cannot be opened, its info or key function cannot be obtained, its window cannot be made, the reading thread cannot be created), the error reaches the caller unchanged, the stream reports that it is not running, no reader can be made, a source that had been opened is closed again, and a later start works as if the failed one had never happened.",
 ['fault_sequences','crash_points','schedules'],'every position and number of failing starts in a history of starts and stops, with concurrent callers',
 'no test makes open, info or thread creation fail',
 [SB],[('start sequence','StreamBuffer.start/_open')],
 [('stop flag','','StreamBuffer._stop_event')],['StreamBuffer.start','StreamBuffer.is_running','StreamBuffer.mk_reader'])

p('C09','A failing source ends the stream for everyone, losing nothing it gave',
 "When reading, keying or ordering an item fails at any point, the stream stops by itself, the source is closed, every consumer (idle, iterating or blocked) still obtains every retained item read before the failure and is then told that the stream ended within one of its poll intervals, and the stream can be started again.",
 ['fault_sequences','crash_points','schedules'],'every position of the failure, kind of exception, number and state of consumers',
 'no test makes a source raise after start',
 [SB,BR],[('finally in the read loop','StreamBuffer._run'),('stop flag shared with readers','BufferReader.is_stopped')],
 [('stop flag','','StreamBuffer._stop_event')],['iter(reader)','reader.read(blocking=True)','StreamBuffer.is_running'])

p('C10','Reader-writer lock: exclusive writers, shared readers, writers first',
 "A writer holding the lock excludes every other holder; readers hold it together whenever no writer holds or waits; a reader arriving while a writer is already waiting gets in only after that writer; and as long as holders release, every waiting reader and writer eventually gets in, a writer as soon as the holders have released.",
 ['schedules'],'every interleaving of any number of readers and writers acquiring and releasing',
 'the lock\'s own unit tests are embedded, sleep-based, sample four schedules, and are not collected',
 [RW,LD],[('light switches and reader queue','RWLock')],
 [('switch counters','number of active readers / waiting writers','_LightSwitch')],['RWLock.reader_acquire/release','RWLock.writer_acquire/release','RWLockSortedDeque.reader_lock/writer_lock'])

p('C11','No combination of calls, and no exception inside one, wedges the stream',
 "Whatever mix of reader calls, new readers, drops, stops and restarts runs concurrently with the source, and whatever exception a user's key function or item comparison raises inside such a call, every call returns or raises, the source goes on being read, and no lock stays held; asking whether the stream runs, and making or attaching a reader, is not kept waiting by a read that is pending (also when the stream is being restarted, and also when it is the source that asks).",
 ['schedules','fault_sequences','inputs'],'every interleaving and call mix, an exception at any key or comparison',
 'tests run one call at a time with well behaved keys',
 [BR,LD,RW,SB],[('context-managed locks','RWLockSortedDeque.reader_lock/writer_lock'),('no nested reader locking','BufferReader.range')],
 [],['completion of every call'])

p('C12','A waiting consumer is served within one poll interval, without spinning',
 "A consumer blocked in iteration or in a blocking read obtains the next item no later than one of its poll intervals after that item was stored, learns of a stop within the same bound, and meanwhile wakes up at most about once per interval, whatever interval was set and whenever it was set.",
 ['schedules','configurations','histories'],'every arrival time of data and stops relative to the poll, every interval',
 'tests only check that a value eventually arrives, in wall-clock time',
 [BR],[('poll loop','BufferReader.__iter__/read(blocking=True)')],
 [('poll interval','','BufferReader._sleep_time_on_iter_none_s')],['iter(reader)','reader.read(blocking=True)','BufferReader.set_sleep_time_on_iter_none'])

p('C13','The source is polled at its configured pace',
 "After the source reports no data it is asked again after the configured idle time (the explicit setting, else the source's own, else 0.3 s), neither earlier nor noticeably later; while it has data and room it is read back to back; items are stored as soon as they are read.",
 ['schedules','configurations','histories'],'every pattern of data and no-data, every setting and source default, full and non-full windows',
 'no test measures the pace or the precedence of settings',
 [SB],[('idle wait in the read loop','StreamBuffer._run'),('precedence of settings','StreamBuffer.__init__')],
 [('idle time','','StreamBuffer._sleep_time_on_read_none_s')],['times of source.read calls'])

p('C14','A shared source is open exactly while somebody has a reader on it',
 "A source handing out its own readers is opened when the first reader is opened, is shared by all readers, stays open as long as any of them is open, and is closed when the last one is closed; closing a reader twice counts once, opening a reader on a closed or failed source opens it afresh with fresh data, a failed opening does not spoil later ones, and the buffer can no longer be configured once it is in use, also when readers are opened and closed from several threads.",
 ['schedules','histories','fault_sequences'],'every interleaving of opening and closing readers from several threads, repeated closes, failing opens and sources',
 'tests open and close readers one after another on one thread; the reopening doctest cannot tell fresh from leftover data',
 [SS,BR],[('open reader count','StreamSource._handle_reader_open/_handle_reader_closed'),('buffer creation','StreamSource._ensure_buffer')],
 [('open readers','','StreamSource._open_readers')],['StreamSource.open_reader','BufferReader.close','source.open/close'])

p('C15','The one-call stream helper delivers, paces and cleans up',
 "A stream made by the one-call helper opens its stream once, delivers every non-None result of the read function in order (numbered consecutively from 0 when enumeration is on, as is otherwise), treats None as 'no data yet' at the configured pace, keys and describes it with the given functions, and calls the close function exactly once with the opened instance however the body or the read function ends; an exception from the body, from opening or from describing reaches the caller.",
 ['schedules','fault_sequences','configurations'],'every combination of optional functions, every failing function and body exit, every data/no-data pattern',
 'the helper has no test at all',
 [SI,SB],[('SimplifiedSourceReader','mk_stream_buffer')],
 [('read_idx','','SimplifiedSourceReader')],['with mk_stream_buffer(...)','reader items','open/close/info/key callables'])

p('C16','An HTTP stream delivers the response body exactly, however it arrives',
 "Each start of the HTTP source sends the request it was made for (address, method, headers, body) anew; the payloads it delivers, concatenated, are exactly the response body (decoded when an encoding is given) received so far, up to the first part that cannot be decoded, however the network splits, delays or cuts it and whatever the wall clock does; after the end of the body no further items are produced, on a network error (also the HTTP library's report of a body shorter than announced) the stream ends and what it delivered is a prefix of the body that includes at least every full read of the configured size received before the error, and the response is closed in every case.",
 ['fault_sequences','inputs','schedules'],'every body, chunking, encoding, delay, connection failure point and clock jump',
 'the HTTP source has no test besides a skipped doctest',
 [HT],[('read and decode','HTTPResponseReader.read'),('close','HTTPResponseReader.close')],
 [('response','','HTTPResponseReader._response')],['reader items','response.close'],None)

p('C17','The locked sorted deque stays sorted, bounded and consistent under threads',
 "Under any interleaving of locked writers and readers, every operation on the sorted deque (append, left/right insert, remove, drop, clear, change of maximum length or of key function, all searches, counts and ranges) behaves as on a plain list kept sorted by key and trimmed to its maximum length, a reader never sees a partly applied writer section, and a refused operation changes nothing except that an oversized drop empties it.",
 ['schedules','histories','inputs'],'every interleaving of batches of operations by several writers and readers, with duplicate keys and any maximum length',
 'tests perform two single-threaded appends',
 [SD,SC,LD,RW],[('paired key/item deques','SortedDeque'),('writer/reader lock','RWLockSortedDeque')],
 [('keys/items','parallel deques','SortedDeque._keys/_items')],['RWLockSortedDeque.reader_lock/writer_lock'])

p('C18','Only a successful, non-peeking read moves a cursor',
 "A reader's cursor (its last item and last key, which always belong together) moves exactly to the last item returned by a successful non-peeking call and is otherwise unchanged: by peeks, by calls that find nothing or raise, by a failing key function, or by anything other readers, the source or a restart do; the reader's own default size, peek, strictness and no-item settings apply to every read that does not override them, and a strict read of n succeeds if and only if at least n new items are there.",
 ['histories','fault_sequences','schedules'],'every sequence of calls with every option and default, with failures at any key call, while the window changes',
 'tests check the cursor after three calls; defaults other than read_size are untested',
 [BR],[('last_item property','BufferReader._setlast_item'),('defaults','BufferReader.read')],
 [('cursor','','BufferReader._last_item/_last_key')],['BufferReader.last_item','BufferReader.last_key','BufferReader.read'])

p('C19','Iterating a source directly yields its valid reads in order, paced and bracketed',
 "Iterating a source reader directly yields exactly its valid reads in order and waits the configured time after each invalid one, and using it as a context opens it before and closes it after the body, once, whatever the body does, with the closed flag and open time telling the truth at each point.",
 ['histories','fault_sequences','schedules'],'every pattern of valid and invalid reads, every pause setting, every exit from the body, clock jumps',
 'tests iterate a list with no gaps and never leave the body by an exception',
 [SR],[('iteration','SourceReader.__iter__, QuickSourceReader.__iter__'),('context','SourceReader.__enter__/__exit__')],
 [('closed flag','','SourceReader._closed')],['iter(source)','with source','source.closed','QuickSourceReader.open_time'])

p('C20','Consumers do not affect one another or the source',
 "A consumer that is slow, stuck in its own code, crashes, abandons its iteration or is discarded neither delays nor changes what the source does or what any other consumer obtains.",
 ['schedules','fault_sequences'],'every point between its calls at which a consumer stalls, crashes or leaves, any number of others',
 'tests use one thread; two readers are only compared once',
 [BR,SB,LD],[('private cursor','BufferReader'),('locks held only within a call','RWLockSortedDeque')],
 [],['other readers\' items and times','times of source.read'])

p('C21','A reader belongs to one fully opened session and carries its info',
 "Making a reader before the first start raises the not-started error; made at any instant afterwards, also while a start is in progress on another thread, a reader is of the class its source asks for and attached to a session whose source has finished opening, and for as long as it exists reports the info taken from the source after that opening, the same for all readers of the session and unaffected by later sessions; the stream itself reports a session's info from the moment its start has returned, also while nothing has been stored yet, and answers, rather than fails, while a start is in progress; attaching an existing reader switches it to the current session's items, stop state and info.",
 ['schedules','histories'],'every instant of reader creation relative to starts, slow openings, failures and restarts',
 'tests create readers only after start has returned',
 [SB,BR],[('start lock','StreamBuffer.start/mk_reader/attach_reader'),('info snapshot','StreamBuffer._open')],
 [('session info','','_SourceBuffer._source_reader_info')],['StreamBuffer.mk_reader','StreamBuffer.attach_reader','reader.source_reader_info'])

p('C22','Every way of scoping a stream releases it exactly once',
 "Whether a stream is scoped by a with block, by enter/exit, by a call forwarding its context to the object it is bound to, or by a reader's own context, the enter runs once before the body, the exit runs once after it with the body's exception information, the body's exception (including an interrupt during any wait) reaches the caller, and the source ends up closed.",
 ['crash_points','fault_sequences','configurations'],'every exit point and exception of the body, including interrupts delivered during waits, every scoping form',
 'tests leave contexts normally only',
 [SB,UT,BR,SR],[('__enter__/__exit__ pairs','StreamBuffer, SourceReader, BufferReader'),('forwarded context','ContextualizeCall')],
 [],['source.open/close','exception seen by the caller'])

p('C23','An interrupted wait for the lock leaves it as if never asked',
 "If a thread waiting for shared or exclusive access is interrupted by an exception (such as a keyboard interrupt), the exception reaches it and the lock behaves as if that request had never been made: nobody else is blocked by it, let in by it, or loses exclusion because of it; a thread interrupted while giving access back has given it back.",
 ['crash_points','schedules','fault_sequences'],'every blocking instant of every acquisition, any number of other readers and writers',
 'no test interrupts a waiting thread',
 [RW,LD],[('acquire/release sequences','RWLock'),('lock context managers','RWLockSortedDeque.reader_lock/writer_lock')],
 [('switch counters','','_LightSwitch')],['RWLock','RWLockSortedDeque.reader_lock/writer_lock'])

p('C24','Streams do not affect one another',
 "However many streams, buffers and shared sources a program uses, each behaves exactly as it would alone: whatever the others do - starting, failing to open, failing, hanging in their source, being stopped, restarted, dropped from, shared by several users or abandoned - neither when its own source is called nor what its own users obtain, and when, is changed by it, also when several sources are instances of one class.",
 ['schedules','fault_sequences','configurations','histories'],'any number of streams of any kind, every history of starts, failures, hangs and restarts of the others, every interleaving',
 'tests use one stream at a time; nothing compares a stream with itself in other company',
 [SB,SS,BR,RW],[('state kept per instance','StreamBuffer.__init__, StreamSource.__init__'),('per-class sources','StreamSource.configure_buffer')],
 [('start lock, readers lock','','StreamBuffer.start_lock, StreamSource._readers_lock')],['times of source calls','items and times of each stream\'s readers'])

p('C25','A stream retains only its window and cursors',
 "However long it runs and however often it is restarted, a stream keeps alive no more items than its window and a few per existing reader; the items of an earlier session are given up once its readers are discarded, a discarded reader or abandoned iteration retains nothing, and a stopped stream that is itself discarded gives up everything.",
 ['histories','schedules','fault_sequences'],'every length of run, number of restarts, way of consuming, crashing, abandoning and failing',
 'tests read a few dozen items and never look at what stays alive',
 [SB,BR,SD,LD,SS],[('bounded deques','SortedDeque'),('session buffer replaced on start','StreamBuffer._set_read_to_buffer_thread_and_source_buffer')],
 [('items alive','','weak references to the items')],['weak references to the items read'])

p('C26','A stream never keeps the program from exiting',
 "Whatever state its streams are in when the program's own threads end - being opened, running, idle, stuck in a read that never returns, half stopped, failed or never stopped at all - no thread of the library, and nothing it registered to be run at exit, keeps the process from exiting.",
 ['crash_points','schedules','fault_sequences'],'every instant at which the program\'s threads return, crash or are interrupted, every state of the source then',
 'tests always stop their streams first, and a thread left behind only shows when the interpreter exits',
 [SB,SS],[('background thread does not keep the process alive','StreamBuffer._set_read_to_buffer_thread_and_source_buffer')],
 [],['library threads left when the program\'s own have ended'])

p('C90','Sorted collection searches agree with a linear scan',
 "Searching, indexing, counting and slicing a sorted collection by key give the same results as a linear scan of the sorted list.",
 ['inputs'],'every list of items, key function and probe','only the recipe\'s embedded, uncollected self-test samples it',
 [SC],[('bisect on a key list','SortedCollection')],[],['SortedCollection methods'])
p('C91','Packaging helper formats, versions and config round-trip',
 "The packaging helper joins URLs, increments versions, completes templates and reads back the configuration it wrote without changing any value.",
 ['inputs'],'every configuration mapping, version string and template','doctests sample one value each',
 ['pack.py'],[('string functions','pack.py')],[],['pack functions'])

out = pathlib.Path(__file__).resolve().parent.parent/'properties.jsonl'
out.write_text(''.join(json.dumps(x, ensure_ascii=False)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80, x['title']
print(len(P))
