#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl from the table below.
import json,os
P=[]
B='lib/go/src/thrift/'
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[B+f if '/' not in f else f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Binary protocol writes exactly the Thrift binary wire format',
 'For every value, each write operation of the binary protocol appends exactly the bytes the Thrift binary encoding prescribes to its transport: big-endian fixed-width integers, IEEE-754 bits for doubles, one byte 0/1 for booleans, a 4-byte length followed by the content for strings and binaries, type bytes followed by a 4-byte count for maps/lists/sets, a type byte and 2-byte id for a field header and a single 0 byte for field stop. Struct/field/message/container end markers and struct begin write nothing. When the transport accepts every write the operation reports no error.',
 ['inputs'],'all values of every argument type (full integer ranges, all double bit patterns, strings and byte slices of every length and content), any bytes already written',
 'the tests round-trip about ten literals per type through the same library; a change that is symmetric in reader and writer, or that shows only for a value not in the list, passes',
 ['tbinary_protocol.go'],[('fixed-width encoders','TBinaryProtocol.WriteI16/WriteI32/WriteI64'),('length-prefixed writers','TBinaryProtocol.WriteBinary, WriteBinaryFromReader, WriteString')],
 ['bytes handed to the transport'])
p('C02','Binary protocol reads back exactly what the wire holds',
 'For every input byte sequence, each read operation of the binary protocol decodes the value that the Thrift binary encoding assigns to the next bytes, consumes exactly the bytes of that value and nothing more, and returns them unchanged; reading back any value written by the binary protocol therefore yields that same value. If the input ends early the operation returns an error.',
 ['inputs'],'all byte sequences, all values, all lengths and all points at which the input may be cut off',
 'tests only read streams produced by the writer for a fixed list of values and never look at how much was consumed',
 ['tbinary_protocol.go'],[('fixed-width decoders','TBinaryProtocol.ReadI16/ReadI32/ReadI64/ReadDouble'),('length-prefixed readers','TBinaryProtocol.ReadString, ReadBinary, readStringBody')],
 ['decoded values','bytes consumed from the transport'])
p('C03','Binary message headers: version check and strict modes',
 'A binary message header written in strict mode starts with the version word 0x8001 combined with the message type, then name, then sequence id; in non-strict mode it is name, one type byte, sequence id. The reader returns exactly the written name, type and sequence id for both forms, refuses any negative first word whose upper half is not 0x8001 with a bad-version error, and in strict-read mode refuses an unversioned header with a bad-version error.',
 ['inputs','configurations'],'all names, message types 0..255, sequence ids, all four strict-read/strict-write settings and all first words on the wire',
 'tests do not exercise the version check or the strict settings at all',
 ['tbinary_protocol.go','tprotocol.go'],[('version word','TBinaryProtocol.WriteMessageBegin'),('version check','TBinaryProtocol.ReadMessageBegin'),('factory passes the strict flags on','TBinaryProtocolFactory.GetProtocol')],
 ['bytes written','returned header or error'])
p('C04','Compact protocol writes canonical zigzag varints and headers',
 'For every value, each write operation of the compact protocol appends exactly the compact encoding: 16/32/64-bit integers as zigzag base-128 varints of minimal length, doubles as 8 little-endian bytes, strings and binaries as an unsigned varint length followed by the content, list/set headers as one byte for sizes up to 14 and otherwise 0xF plus type followed by a varint size, map headers as a single 0 byte when empty and otherwise varint size and a key/value type byte. A message header is 0x82, then version 1 with the message type in the top three bits, then the sequence id as a varint, then the name.',
 ['inputs'],'all values of every argument type, all element types, all container sizes, all message types 0..7',
 'tests round-trip a few literals through the same code, so the emitted bytes are never compared with the format',
 ['tcompact_protocol.go'],[('varint encoders','TCompactProtocol.writeVarint32/writeVarint64'),('zigzag','int32ToZigzag/int64ToZigzag'),('type table','_TTypeToCompactType, getCompactType')],
 ['bytes handed to the transport'])
p('C05','Compact protocol reading is the exact inverse of its writing',
 'Reading any value that the compact protocol wrote (integers of all widths, doubles, strings, binaries, booleans, bytes, message headers of every message type, map/list/set headers with their element types and sizes) returns exactly that value and consumes exactly its bytes. A message whose protocol id is not 0x82 or whose version is not 1 is refused with a bad-version error, an element type nibble that names no type is refused with an error, and input that ends early is refused with an error.',
 ['inputs'],'all values, all byte sequences, all truncation points',
 'tests read back only a few literals; ONEWAY messages, boolean false element types, invalid nibbles and truncated input are never read',
 ['tcompact_protocol.go'],[('varint decoder','TCompactProtocol.readVarint64'),('zigzag inverse','zigzagToInt32/zigzagToInt64'),('type table inverse','getTType')],
 ['decoded values','bytes consumed'])
p('C06','Compact field headers: id deltas, nesting and folded booleans',
 'A field header is one byte (delta from the previous field id in the same struct in the high nibble, type in the low nibble) when the delta is between 1 and 15, otherwise the type byte followed by the zigzag varint id; the previous id starts at 0 in every struct and is restored when a nested struct ends. The header of a boolean field carries the value in its type nibble and is written when the value is, and is read back without consuming further bytes; a boolean outside a field is one byte. Reading applies the same rules, so for any nesting of structs every field id, type and boolean value that was written is read back.',
 ['inputs','histories'],'all field ids (including negative and descending), types, boolean values, nesting depths and earlier states of the reader or writer',
 'tests never write or read more than a single boolean field and no nested struct through the compact protocol',
 ['tcompact_protocol.go'],[('field id stack','lastField, lastFieldId'),('pending boolean field','booleanField, boolValue, boolValueIsNotNull')],
 ['bytes written','field ids, types and booleans read'],
 [('lastFieldId','id of the previous field in the current struct',B+'tcompact_protocol.go'),('lastField','stack of suspended ids',B+'tcompact_protocol.go')])
p('C07','Skipping a value consumes exactly that value',
 'Skipping a value of a given type performs exactly the reads that make up one value of that type: nothing for stop, one scalar read for a scalar, for a struct every field up to and including the stop field, for a map exactly size key/value pairs, for a list or set exactly size elements, including the begin and end calls. Any error from the protocol while skipping stops the skip and is returned, and a value nested deeper than the given maximum depth is refused with an error instead of being followed.',
 ['inputs','histories','fault_sequences'],'all types, sizes, nestings, depths and all points at which the protocol may fail',
 'no test calls skip; nesting, faults and depth limits form an unbounded space',
 ['tprotocol.go'],[('recursive skip','Skip'),('depth limit','MaxSkipDepth, SkipDefaultDepth')],
 ['sequence of calls made on the protocol','returned error'])
p('C08','A transport failure is never swallowed by the protocols',
 'Whenever an underlying transport call made by a read, write or flush operation of the binary or compact protocol fails, that operation returns a non-nil error, whatever the position of the failing call inside the operation. No bytes are written after a failed write within the same operation, and an operation whose transport calls all succeed on well-formed data returns no error.',
 ['inputs','fault_sequences'],'all operations, arguments and all choices of which transport call fails and how (at once, or after part of the data)',
 'tests use an in-memory transport that never fails',
 ['tbinary_protocol.go','tcompact_protocol.go','tprotocol_exception.go'],[('error conversion','NewTProtocolExceptionFromOsError'),('early returns','each Write*/Read* operation')],
 ['returned error versus transport error'])
p('C09','JSON writers put every separator in the right place',
 'For every sequence of write calls that forms a value, the simple JSON protocol and the JSON protocol produce syntactically valid JSON: elements of lists, sets and messages are separated by exactly one comma, object keys and values alternate with colon and comma, and every opened bracket is closed by its matching end call with the enclosing context restored. Numbers used as object keys are quoted, and non-finite doubles are written as strings.',
 ['inputs','histories'],'all nestings of structs, maps, lists, sets and messages, all counts of elements before the current one, all values',
 'tests write single containers and compare with one string; nested contexts and mixed sequences are not covered',
 ['tsimple_json_protocol.go','tjson_protocol.go'],[('parse context stack','parseContextStack, dumpContext'),('separators','OutputPreValue/OutputPostValue'),('brackets','OutputObjectBegin/End, OutputListBegin/End')],
 ['bytes written to the transport'])
p('C10','JSON type names map one-to-one to types',
 'In the JSON protocol each Thrift type that can appear on the wire has its own short name, no two types share a name, and looking the name up again gives back the type it came from; an unknown name or type is refused with an error. The name of a field or element type written by the JSON protocol is therefore always read back as the type that was written.',
 ['inputs'],'all type bytes and all names',
 'tests use only a handful of types through round trips of scalars, never the name table itself',
 ['tjson_protocol.go'],[('tables','TypeIdToString, StringToTypeId')],['names and types'])
p('C12','Read-all fills the whole buffer or reports an error',
 'For every transport, reading all of a buffer either fills the entire buffer with the next bytes of the stream in order and reports the full length with no error, or returns a non-nil error; it never reports success with fewer bytes, never drops, repeats or reorders bytes however the stream is cut into partial reads, and never reads beyond the buffer. An end-of-stream notice that arrives together with the last needed byte is not an error.',
 ['inputs','histories','fault_sequences'],'all buffer lengths, all splits of the stream into partial reads (including reads that return no data), all points at which a read fails',
 'in-memory transports return everything in one read, so the loop runs once in nearly every test',
 ['ttransport.go'],[('accumulation loop','ReadAllTransport')],['filled buffer, returned count and error'])
p('C13','Framed transport: one length-prefixed frame per flush, transparent reads',
 'Writes to a framed transport reach the underlying transport only on flush, as one frame consisting of the big-endian 4-byte length followed by exactly the bytes written since the previous flush, after which the pending buffer is empty. Reading returns the payload bytes of the incoming frames in order, never a byte of a length header, across frame boundaries; a failure of the underlying transport, a truncated frame or a frame length above 2^31-1 is reported as an error, and an empty frame does not end the stream.',
 ['inputs','histories','fault_sequences'],'all payloads, numbers of writes per flush, buffer sizes, frame sequences and failures of the underlying transport',
 'the test sends one small payload through a transport that never fails or splits',
 ['tframed_transport.go'],[('frame header','TFramedTransport.Flush'),('frame reader','TFramedTransport.readFrame, Read')],['bytes on the underlying transport','bytes read'])
p('C14','Memory buffer is a byte queue',
 'A memory buffer returns bytes in exactly the order they were written through any of its write operations, each byte once; its length is always the number of bytes written and not yet read, its contents as bytes or as string are exactly those unread bytes, and a read from an empty buffer into a non-empty slice reports end of file. Reset and close discard everything, and flush, open and peek never change the contents.',
 ['inputs','histories'],'all sequences of operations and all contents',
 'the test writes and reads one short string',
 ['tmemory_buffer.go'],[('wrapped byte buffer','TMemoryBuffer.buf')],['bytes read, Len, Bytes, String'])
p('C15','Stream and socket transports pass data and errors through unchanged',
 'Reading from a stream, socket, non-blocking socket or HTTP transport returns exactly the bytes, count and failure of one read of the underlying reader or connection; writing to a stream or non-blocking socket hands the given bytes unchanged to the underlying writer and returns its count and failure; bytes written to a socket reach the connection in order when flushed, each once. Flush reports the failure of the underlying flush or write, and reading, writing or flushing without an underlying reader, writer or connection reports a not-open error instead of panicking.',
 ['inputs','fault_sequences'],'all buffers (including empty ones), all results of the underlying calls',
 'tests use connections and readers that never fail and never transfer partially',
 ['tiostream_transport.go','tsocket.go','tnonblocking_socket.go','thttp_client.go'],[('nil checks','Read/Write/Flush of each transport'),('error conversion','NewTTransportExceptionFromOsError')],['calls on the underlying object','returned count and error'])
p('C16','Servers process every accepted connection and release it',
 'For each connection a server accepts, the processor is called until it reports failure or completion, and afterwards both the input and the output transport obtained for that connection are closed, whatever the outcome. A failing accept ends the serving loop with an error or is logged, serving ends after a stop request, stopping interrupts the listening transport, and a failure to listen is returned without accepting anything.',
 ['histories','fault_sequences'],'all sequences of accept results and processor outcomes, all configurations of transport and protocol factories',
 'the server tests only construct factories; no test serves a connection with failures',
 ['tsimple_server.go','tnonblocking_server.go'],[('accept loop','Serve'),('per-connection loop','processRequest'),('stop flag','Stop')],['calls on processor, transports and listener'])
p('C17','Open/close life cycle of sockets and server sockets',
 'A client or server socket is open exactly when it holds a live connection or listener; opening an open one is refused with an already-open error and leaves it unchanged, a failed open leaves it closed and reports an error, closing releases the underlying connection or listener exactly once and leaves it closed, and closing a closed one succeeds without effect. If closing the underlying object fails, the failure is reported.',
 ['histories','fault_sequences'],'all states and all outcomes of dialling, listening and closing',
 'tests only open and close real sockets successfully',
 ['tsocket.go','tnonblocking_socket.go','tserver_socket.go','tnonblocking_server_socket.go'],[('nil-ness of the connection/listener','IsOpen, Open, Close')],['IsOpen, calls on the connection'])
p('C18','Scalar comparisons form a total order',
 'The comparison functions for bytes, integers of each width, doubles and strings return a negative number, zero or a positive number exactly as the first argument is less than, equal to or greater than the second in the natural order, for every pair of arguments; boolean false orders before true, byte sequences order lexicographically with a proper prefix first, and string arrays order by length first and then by their first difference. A double that is not a number is neither less nor greater. The generic comparison of two values of the same scalar type agrees with these (not-a-number values excepted).',
 ['inputs'],'all pairs of arguments, all lengths of arrays',
 'no test compares more than a few values, and overflow or sign cases are absent',
 ['tcompare.go'],[('comparison functions','Compare*')],['sign of the result'])
p('C19','Lists behave as sequences',
 'A list keeps its elements in insertion order: pushing appends, popping returns and removes the last element, inserting shifts later elements, deleting removes exactly the addressed element, setting replaces exactly the addressed element (or appends, one past the end), swapping exchanges exactly two positions, and the element at an index, the length and membership of basic values always agree with that sequence. Operations leave all other elements unchanged.',
 ['inputs','histories'],'all list contents and lengths, all indices in range, all values',
 'no test exercises the list type',
 ['tlist.go'],[('backing slice','tList.l')],['At, Len'])
p('C20','Sets hold each element once',
 'In a set of elements of a basic type (bool, byte, 16-, 32- and 64-bit integer, double, string), after adding a value the set contains it and its length grows by one exactly if the value was not present before; removing a value makes the set not contain it and leaves every other member, and the length always equals the number of distinct members, zero for a new set. Adding never removes or duplicates another member (elements that are not a number excepted).',
 ['inputs','histories'],'all set contents, insertion orders and values',
 'no test exercises the set type',
 ['tset.go'],[('backing ordered list','tSet.l')],['Contains, Len'])
p('C21','Maps return the last value stored under each key',
 'In a map whose keys are of a basic type (bool, byte, 16-, 32- and 64-bit integer, double, string), after a value of the declared value type is stored under a key, looking up that key returns that value and reports presence, every other key keeps its value, and the length equals the number of distinct keys stored. A missing key is always reported as absent, for every one of these key types (keys that are not a number excepted).',
 ['inputs','histories'],'all map contents, key types, keys and values',
 'one test stores a few integer keys',
 ['tmap.go'],[('per-key-type maps','tMap*')],['Get, Contains, Len'])
p('C22','Field tables answer lookups consistently',
 'A field table built from a list of fields finds each field by its id and by its non-empty name, maps a name to the id and an id to the name of that same field, and answers the documented default (anonymous field, empty name, id -1) for ids and names that are not in the table. Membership and length agree with the given fields.',
 ['inputs'],'all field lists with distinct ids and names, all looked-up ids and names',
 'no test queries a field table',
 ['tfield.go','tstruct.go'],[('lookup maps','idToFieldMap, nameToFieldMap')],['lookup results'])
p('C24','Exception conversion keeps presence and kind of an error',
 'Converting an error to a protocol or transport exception yields nil exactly for a nil error, keeps the type id of an exception that already is of that family, and otherwise keeps the message; end of file becomes the end-of-file kind for transport exceptions, and a corrupt-base64 error becomes invalid data for protocol exceptions. Constructing an exception with a type id and a message returns exactly these from its accessors.',
 ['inputs'],'all errors (nil, each exception family, end of file, base64, arbitrary) and type ids and messages',
 'tests construct one exception of each family',
 ['texception.go','tprotocol_exception.go','ttransport_exception.go'],[('conversion','NewTProtocolExceptionFromOsError, NewTTransportExceptionFromOsError')],['nil-ness, TypeId, Error'])
p('C25','Application exceptions survive a protocol round trip',
 'Writing an application exception emits one struct holding the message as string field 1 when it is not empty and the type as 32-bit integer field 2, followed by stop; reading such a struct, with fields in any order and unknown or wrongly typed fields skipped, gives an exception with the message and type that were written. Any protocol error met on the way is returned.',
 ['inputs','histories','fault_sequences'],'all messages, types, field orders, extra fields and failing protocol calls',
 'the test reads one exception written by itself',
 ['tapplication_exception.go'],[('field loop','tApplicationException.Read'),('writer','tApplicationException.Write')],['protocol call sequence','Error, TypeId'])
p('C28','Malformed input makes the protocols return errors, never panic',
 'For every byte sequence on the wire, every read operation of the binary and the compact protocol returns, either with a value or with an error, and never panics; in particular a negative or oversized length prefix and an invalid type code are reported as errors. A string, binary or container whose declared size is negative is never accepted.',
 ['inputs','histories'],'all byte sequences and all earlier states of the protocol object that balanced calls can produce',
 'tests feed only well-formed data',
 ['tbinary_protocol.go','tcompact_protocol.go'],[('length checks','ReadBinary, readStringBody, Read*Begin'),('type checks','getTType')],['panic or error'])
p('C26','Generated clients and processors carry arguments and results faithfully',
 'A generated client writes one call message carrying exactly the given arguments and returns exactly the result or exception of the matching reply; a generated processor dispatches on the method name and answers an unknown method with an unknown-method application exception.',
 ['inputs','histories','programs'],'all services, arguments and replies',
 'the checked-in generated sample is compiled and only its construction is tested',
 ['tests/generation/golden/gen-go/simple/Simple.go'],[('generated code','gen-go')],['messages on the protocol'])
p('C27','The Go code generator emits code that implements the IDL',
 'For every IDL file accepted by the compiler the generated Go code compiles and its structs write and read every declared field with its declared id and type.',
 ['programs'],'all IDL files',
 'there is one IDL file in the tests and the generator itself is never built here',
 ['compiler/cpp/src/generate/t_go_generator.cc'],[('generator','t_go_generator')],['generated text'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
