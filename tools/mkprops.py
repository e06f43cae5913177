"""Writes properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
K = "knx_stack/"
D = K + "definition/"
p("C01", "Hex text and byte messages convert losslessly; fields are consumed in order",
  "Any hexadecimal text of even length, in either letter case, becomes a message holding exactly those octets, which prints as the same octets in upper-case hexadecimal, and text with an ASCII character that is not a hexadecimal digit is refused. "
  "Consuming an octet, a big-endian 16-bit or 32-bit value, or (in a KNXnet/IP message) a host-address, connection-request, connection-response or connection-header block returns exactly the leading octets' content and a remainder of the same message kind holding all the others, leaves the message itself unchanged, and fails when too few octets remain. "
  "The octet, 16-bit and 32-bit wrappers convert between value, nibbles, single bytes and octet lists without loss.",
  ["inputs"], "all byte strings (0..300 octets), all consumption sequences over them, all 2^8/2^16/2^32 wrapper values",
  "The doctests consume one seven-octet message once; no test covers arbitrary text, lower case, short remainders or the KNXnet/IP blocks.",
  [K+"msg.py", D+"knxnet_ip/msg.py"],
  [("octect/short/long consumption", K+"msg.py"), ("HPAI/CRI/CRD/header blocks", D+"knxnet_ip/msg.py")],
  observe=["Msg.make_from_str, repr(Msg), Msg.octect/short/long, knxnet_ip.Msg.HPAI/CRI/CRD/header"])
p("C02", "A group address is the same address in all three notations",
  "A group address built from its raw 16-bit number, from main/sub (5 and 11 bits) or from main/middle/sub (5, 3 and 8 bits) is one and the same address: each notation reads back the fields the other notations imply, and it prints as the hexadecimal number followed by both notations. "
  "Two addresses, group or individual, are equal and hash alike exactly when their raw numbers are equal, so they can be used interchangeably as set members and dictionary keys.",
  ["inputs"], "all 65536 addresses (enumerated) and pairs of them, group and individual kinds",
  "Doctests show three addresses; equality, hashing and field isolation over the whole space are unsampled.",
  [K+"address.py"], [("bit-field unions", K+"address.py")], observe=["GroupAddress / Address attributes, repr, ==, hash"])
p("C03", "The group address table maps addresses and positions one to one",
  "After any sequence of additions, removals and individual-address changes starting from a table of distinct group addresses, the table lists each present group address exactly once in ascending order, positions 1..n map to those addresses and back, position 0 yields the current individual address, and an unknown address has no position and a position beyond n no address. "
  "Adding a group address already present changes nothing; adding beyond the configured capacity or removing an absent address is refused with an error and leaves the table as it was.",
  ["histories", "configurations"], "all operation sequences over small and full-range address pools with capacities 0..255",
  "One doctest adds one address and removes it; repeats, capacity limits and long histories are not exercised.",
  [D+"layer/network/address_table.py"], [("sorted list + index", D+"layer/network/address_table.py")],
  [("_group_addresses", "sorted group addresses", D+"layer/network/address_table.py")],
  ["AddressTable.addresses/tsaps/get_address/get_tsap/individual_address"])
p("C04", "The association table reflects exactly the associations made",
  "After any sequence of associating and disassociating access points and group addresses (several access points may share an address, associations may be repeated, and the address table may also be edited directly), each access point reports exactly its associated addresses in the order they were associated, and each address reports exactly the access points associated with it, each once. "
  "An address stays usable while at least one access point uses it; an association that exceeds the table's capacity is refused with an error and changes nothing; removing an association that does not exist is refused with an error; the number proposed as free is never one in use. "
  "Access points are equal exactly when their numbers are, whatever their names.",
  ["histories", "configurations"], "all histories of associate/disassociate/direct table edits over small pools of access points and addresses, capacities 1..20",
  "The doctest performs four calls with no shared address; sharing, overflow, repeats and stale position caches need histories.",
  [D+"layer/transport/association_table.py", D+"layer/network/address_table.py", K+"state.py"],
  [("associate/disassociate", D+"layer/transport/association_table.py"), ("tsap to asaps index", D+"layer/transport/association_table.py")],
  [("_asap_addresses", "addresses per access point, in order", D+"layer/transport/association_table.py"), ("_tsap_asaps", "access points per position", D+"layer/transport/association_table.py")],
  ["AssociationTable.get_tsap/get_tsaps/get_asaps/get_asaps_from_address/get_addresses/asaps/get_free_asap_value"])
p("C05", "A received group telegram reaches exactly the associated access points",
  "A well-formed group read, response or write telegram, indication or confirmation, received over USB or in an expected tunnelling request, yields exactly one message for each access point that is currently associated with its destination address and has a datapoint type, and no other message (except the tunnelling request itself). "
  "Each message is of the telegram's own service and kind, carries a separate instance of that access point's datapoint type holding the transmitted value, and for confirmations the transmitted positive or negative status. "
  "Telegrams for addresses that are unknown or no longer associated, and broadcasts, yield no message; the result follows every later change of the association and datapoint-type tables.",
  ["inputs", "histories", "configurations"], "all configurations with shared addresses, all group services, sources, flags, priorities, hop counts, additional-information lengths, values, interleaved with table changes",
  "Tests decode a dozen captured frames against one or two fixed tables; they never change tables between frames or share addresses between differently typed access points.",
  [K+"decode/layer/transport/t_data_group/ind.py", K+"decode/layer/transport/t_data_group/con.py", K+"decode/layer/application/a_group_value.py", K+"state.py"],
  [("APCI dispatch", K+"decode/layer/transport/t_data_group/ind.py"), ("get_asaps_and_dpts", K+"state.py")],
  observe=["decode_msg results"])
p("C06", "Group read and write requests address the access point's first group address",
  "A group read or write request (and a simulated group write indication) for any access point produces a frame whose destination is the first group address still associated with that access point and whose service code, standard control fields, zero source and length octet are those of that service, whatever the order of addresses in the table, the other associations and the number of addresses. "
  "The frame is carried as a USB report, as a KNXnet/IP tunnelling request or bare, according to the configured medium, with identical bus content; a request for an access point without any group address is refused with an error instead of producing a frame.",
  ["inputs", "histories", "configurations"], "all table configurations and association histories, all three media, all access points",
  "Encoding doctests use one access point with one address on one medium.",
  [K+"encode/layer/network/n_data_group/encode.py", K+"encode/layer/transport/t_data_group/encode.py", K+"encode/cemi/ldata/req.py", K+"encode/cemi/ldata/ind.py", K+"encode/layer/link/l_data/encode.py"],
  [("first address is the sending address", K+"encode/layer/network/n_data_group/encode.py"), ("medium switch", K+"encode/cemi/ldata/req.py")],
  observe=["encode_msg results"])
p("C07", "A written value is on the wire exactly as its datapoint type lays it out",
  "A group write of any value puts that value on the bus in the datapoint type's own width: types of up to six bits share the last octet of the service code, one-, two- and four-octet types follow it in big-endian order, with the length octet matching. "
  "Neither the service bits, the destination nor any other field of the frame depends on the value.",
  ["inputs"], "all datapoint types and all their raw values, both write directions, both media",
  "The tests write three values of two types.",
  [K+"encode/layer/application/a_group_value_write/encode.py", K+"datapointtypes.py"],
  [("length class and value size", K+"encode/layer/application/a_group_value_write/encode.py")], observe=["encode_msg results"])
p("C08", "Values survive from one stack's request to another stack's indication",
  "A value written by one stack, over either medium, is received with every datapoint field equal to what was written by any other stack, over either medium, whose access point for that address has the same datapoint type, both when the frame arrives as an indication and when the sender sees its own confirmation. "
  "A group read request arrives likewise as a read at every access point associated with the address, and every simulated indication a stack encodes is decodable by the same stack.",
  ["inputs", "configurations"], "all datapoint types and values, pairs of independent configurations sharing one address, four medium combinations",
  "No test passes an encoded frame to a decoder.",
  [K+"__init__.py", K+"encode/layer/application/a_group_value_write/encode.py", K+"decode/layer/application/a_group_value.py"],
  [("encode_msg / decode_msg", K+"__init__.py")], observe=["encode_msg then decode_msg on another state"])
p("C09", "Property requests and transport control requests are encoded exactly",
  "A property read or write request produces an individually addressed frame to the configured individual address whose service code, 8-bit object index, 8-bit property id, 4-bit element count, 12-bit start index and (for writes) data octets are exactly those requested and whose length octet matches, over every medium and after any change of the individual address; a write with more data than the frame's length octets can count is refused. "
  "A transport connect or disconnect request produces the individually addressed control frame of zero data length with its own control code.",
  ["inputs", "configurations"], "all field values, data of 0..400 octets, all individual addresses, three media",
  "Four fixed requests are tested; field boundaries and bleeding between the packed fields are not.",
  [K+"encode/layer/application/a_property_value_read/req.py", K+"encode/layer/application/a_property_value_write/req.py", K+"encode/layer/network/n_data_individual/req.py", D+"layer/application/a_property_value.py", K+"encode/layer/transport/t_connect/req.py"],
  [("PropertyServiceHeader", D+"layer/application/a_property_value.py")], observe=["encode_msg results"])
p("C10", "Property telegrams are delivered only for the configured device, field exact",
  "A well-formed property read, write or response indication yields exactly one message when its source is the configured individual address and none otherwise; a property confirmation yields exactly one message when its destination is the configured individual address and none otherwise, even when a group address has the same number. "
  "The message carries the transmitted object index, property id, element count, start index, data octets (write and response) and, for confirmations, the status; a property request encoded by a stack decodes back to the same fields.",
  ["inputs", "configurations"], "all field values and data, all source/destination pairs around the configured address, group tables containing the same number, both media",
  "Tests replay a few captured frames whose address always matches.",
  [K+"decode/layer/transport/t_data_individual/ind.py", K+"decode/layer/transport/t_data_individual/con.py", K+"decode/layer/application/a_property_value.py"],
  [("source / destination filter", K+"decode/layer/transport/t_data_individual/ind.py")], observe=["decode_msg results"])
p("C11", "Two-octet floating values follow the KNX format and round trip",
  "Each of the 65536 raw two-octet values decodes to 0.01 x mantissa x 2^exponent with an 11-bit two's-complement mantissa, and re-encoding the decoded value gives a raw value that decodes to the same number. "
  "Encoding any number in the representable range yields a raw value that decodes to within one step of the requested number (the step being 0.01 x 2^exponent for the smallest exponent that can hold it) with the same sign or zero, the result never decreases when the number increases, and a number beyond the range is refused with an error and leaves the stored value unchanged. The program's decimal context makes no difference.",
  ["inputs"], "all 65536 raw values (enumerated) and generated floats over and around the range, including values near every exponent boundary",
  "Doctests cover about fifteen values, none at a boundary, none tiny negative.",
  [K+"datapointtypes.py"], [("DPT_Float_16.encode/decode", K+"datapointtypes.py")], observe=["encode/decode/value of Temp, Lux, Wsp types"])
p("C12", "Four-octet floating values are IEEE single precision, bit exact",
  "Every raw four-octet value decodes to the IEEE single-precision number with that bit pattern, infinities and not-a-number included; encoding any finite number in range yields the nearest single-precision number's bits, so encoding a decoded value restores the raw value, and on the bus the bits appear in big-endian order and are received unchanged by the peer.",
  ["inputs"], "all 2^32 bit patterns and doubles, sampled with boundary bias",
  "Three constants are tested.",
  [K+"datapointtypes.py", K+"encode/layer/application/a_group_value_write/encode.py"], [("DPT_Float_32", K+"datapointtypes.py")], observe=["encode/decode/value of Power type, frames"])
p("C13", "Each field of a bit-packed datapoint occupies its own bits",
  "For every bit-packed datapoint type and every raw value, each field and named value reads the bits the type's layout assigns to it, and assigning a field (by name for enumerated fields) makes it read back as assigned while all other fields keep their values. "
  "Assigning a name outside the enumeration is refused with an error and leaves the value unchanged.",
  ["inputs"], "all raw values of the 1-octet types (enumerated), generated raw values of the 4-octet types, all fields, all legal values, all orders of assignment",
  "Doctests set one or two fields of a zero value; isolation between fields is never checked.",
  [K+"datapointtypes.py"], [("ctypes bit fields and properties", K+"datapointtypes.py")], observe=["field properties and raw value of each DPT"])
p("C14", "A datapoint's description rebuilds an equal datapoint",
  "Describing any datapoint, whatever value it holds (including any value received from the bus), yields its type's name and a dictionary of plain values, and building a datapoint from that description gives one of the same type whose fields and decoded value are all equal, so that describing it again gives the same description. "
  "Printing a datapoint or any decoded message never fails.",
  ["inputs"], "all datapoint types with all raw values (enumerated where 8/16 bit)",
  "Two descriptions are shown in doctests; no test rebuilds from a description.",
  [K+"datapointtypes.py"], [("Description_Factory / DPT_Factory", K+"datapointtypes.py")], observe=["Description_Factory.make, DPT_Factory.make, repr"])
p("C15", "Tunnelled telegrams are delivered exactly once, in sequence",
  "Of all tunnelling requests received on a connection, those carrying the expected sequence counter are reported with no error and their telegram delivered, an exact repeat of the last acknowledged one is reported with no error but not delivered again, and any other is reported as a sequence error and not delivered; receiving alone never moves the expected counter, sending the acknowledgement for the expected request advances it by one, modulo 256, and acknowledging a repeat leaves it alone. "
  "The acknowledgement frame carries the connection's channel, the sequence counter of the request it acknowledges and the status given.",
  ["histories", "fault_sequences"], "all histories of loss, duplication, reordering and counter wrap, with acknowledgements sent or omitted",
  "One doctest each with counter 1; duplicates, gaps, wrap-around and repeated acknowledgement are untested.",
  [K+"decode/knxnet_ip/tunneling/req.py", K+"encode/knxnet_ip/tunneling/ack.py", K+"state.py"],
  [("expected counter comparison", K+"decode/knxnet_ip/tunneling/req.py"), ("advance on acknowledgement", K+"encode/knxnet_ip/tunneling/ack.py")],
  [("sequence_counter_remote", "next expected request counter", K+"state.py")], ["decode_msg / encode_msg results, State.sequence_counter_remote"])
p("C16", "Outgoing tunnelling requests carry channel and counter, advanced only by acks",
  "Every request encoded for tunnelling carries the connection's current channel and outgoing sequence counter with a total length matching its size, and encoding never changes the counter. "
  "A received acknowledgement yields exactly one acknowledgement message with its status; one with no error for the current counter advances the counter by one modulo 256, while one for any other counter leaves it unchanged, so repeated and stale acknowledgements have no effect.",
  ["histories", "fault_sequences"], "all histories of encodes and good, stale, repeated, failing acknowledgements, across the 255 to 0 wrap",
  "One encode and one acknowledgement doctest, both at counter 0.",
  [K+"encode/knxnet_ip/tunneling/req.py", K+"decode/knxnet_ip/tunneling/ack.py", K+"encode/knxnet_ip/tunneling/connection_header.py"],
  [("compare then advance", K+"decode/knxnet_ip/tunneling/ack.py")], [("sequence_counter_local", "next outgoing counter", K+"state.py")],
  ["encode_msg / decode_msg results, State.sequence_counter_local"])
p("C17", "The channel identifier follows the gateway's connect and disconnect answers",
  "A successful connect response is reported with the gateway's endpoint, the assigned individual address and no error, and its channel is the one carried by every later connection-state request, disconnect request, tunnelling request and acknowledgement; a refused one is reported with its refusal status, with or without an endpoint in it, and leaves the channel alone. "
  "A disconnect response without error releases the channel (to zero) and is reported, any other changes nothing; connection-state responses are reported with their status, search responses with the gateway's endpoint and individual address, and neither changes the connection.",
  ["histories", "inputs"], "all histories of core responses with every defined status, channel and endpoint, interleaved with requests",
  "Each response is decoded once from one capture; no test checks what later frames carry.",
  [K+"decode/knxnet_ip/core/connect/res.py", K+"decode/knxnet_ip/core/disconnect/res.py", K+"decode/knxnet_ip/core/connectionstate/res.py", K+"decode/knxnet_ip/core/search/res.py", K+"decode/knxnet_ip/header.py"],
  [("channel stored on success", K+"decode/knxnet_ip/core/connect/res.py"), ("service dispatch", K+"decode/knxnet_ip/header.py")],
  [("communication_channel_id", "channel of the open connection", D+"knxnet_ip/state.py")], ["decode_msg results, later encode_msg results"])
p("C18", "KNXnet/IP core requests are encoded exactly",
  "Connect, connection-state, disconnect and search requests carry the version 1.0 header, their own service type, a total length equal to the frame's size, the given IPv4 address and port as host-address blocks in the documented order, the current channel where the service has one, and for connect the link-layer tunnel connection block, for every address, port and channel.",
  ["inputs"], "all IPv4 addresses, ports, channels",
  "One frame per service is compared, with control and data endpoints sharing the port.",
  [K+"encode/knxnet_ip/core/connect/req.py", K+"encode/knxnet_ip/core/hpai.py", K+"encode/knxnet_ip/core/search/req.py"],
  [("hpai.create", K+"encode/knxnet_ip/core/hpai.py")], observe=["encode_msg results"])
p("C19", "USB reports are framed and unframed by their length fields only",
  "Every frame encoded for USB is a single report whose report length, transfer-protocol header length and body length equal the sizes of what they describe; decoding a report gives the same result whatever padding follows the declared lengths and whatever additional information precedes the telegram. "
  "Reports with another report identifier, packet type, protocol version, header length, protocol, message format or manufacturer than those of a single-packet standard KNX tunnel report yield no message, and bus-access-server feature reports yield exactly the announced connection status or message format.",
  ["inputs"], "all encodable requests, all paddings up to and beyond 64 octets, all values of each header octet",
  "Captured frames with one padding length are decoded; header variations are not.",
  [K+"encode/usb_hid/report_header/packet_info.py", K+"encode/usb_hid/report_body/usb_protocol_header/body_length.py", K+"decode/usb_hid/report_header/packet_info.py", K+"decode/usb_hid/report_body/usb_protocol_header/body_length.py"],
  [("length slicing", K+"decode/usb_hid/report_body/usb_protocol_header/body_length.py")], observe=["encode_msg / decode_msg results"])
p("C20", "Every well-formed frame is decoded to a list, unsupported ones to an empty one",
  "Decoding any structurally complete frame of the configured medium, of any KNXnet/IP service with defined status codes, any message code, address type, transport control code, application service and datapoint value, returns a list of messages and never fails. "
  "Telegrams of services the stack does not implement contribute no message, and connectionless telegrams of an implemented service are never misreported as another one.",
  ["inputs", "configurations"], "all combinations of header fields of complete frames, over configurations with associated, unassociated and untyped addresses",
  "Tests decode only frames whose service is implemented and whose tables match.",
  [K+"decode/cemi/msg_code.py", K+"decode/layer/network/n_data_group/ind.py", K+"decode/layer/network/n_data_individual/ind.py", D+"layer/link/ldata.py", K+"decode/knxnet_ip/header.py"],
  [("nested dispatch with empty defaults", K+"decode/cemi/msg_code.py")], observe=["decode_msg results"])
p("C21", "Damaged input is rejected without harming the connection",
  "Any byte sequence whatsoever given to the decoder (truncated, mutated or random) either returns a list of messages or is rejected with an ordinary error, promptly; when it is rejected, the sequence counters, channel and tables are exactly what they were, and every later valid frame is decoded as if the damaged input had never arrived.",
  ["inputs", "fault_sequences"], "random bytes, truncations and mutations of valid frames, for both media, at any point of a connection's history",
  "No test feeds malformed input.",
  [K+"decode/knxnet_ip/header.py", K+"decode/usb_hid/report_header/report_identifier.py", K+"decode/knxnet_ip/tunneling/ack.py"],
  [("state changed only after parsing", K+"decode/knxnet_ip/core/connect/res.py")], observe=["decode_msg result or exception, State counters and channel, later decode_msg results"])
p("C22", "Encoding and decoding do not depend on what was processed before",
  "The frame produced for a request and the messages produced for a frame depend only on the tables, the medium, the channel and the two sequence counters: after any history of other encodes, decodes, failed requests and rejected frames, the same call gives the same result as on a freshly built stack with the same tables, channel and counters. "
  "Neither operation modifies the request, the value or the frame handed to it, or the tables, and messages already returned keep their content.",
  ["histories"], "all interleavings of encodes and decodes over one state, both media",
  "Each test uses a fresh state for one or two calls.",
  [K+"state.py", K+"__init__.py"], [("per-call state fields are overwritten first", K+"state.py")],
  [("ldata/asap/apci/address_type", "scratch fields left over from earlier calls", K+"state.py")], ["encode_msg / decode_msg results"])
p("C23", "The tunnelling client keeps the protocol with its gateway",
  "Over any sequence of datagrams, the tunnelling client opens by sending one connect request naming its own endpoint, reports itself connected and sends a connection-state request on the new channel only after a successful connect response (both sequence counters restarting at zero), and answers each tunnelling request with the expected or the repeated counter with exactly one acknowledgement of that counter, and any other datagram with nothing. "
  "Once connected, and not before, it transmits its queued messages once each, in order, to the gateway, and a damaged datagram never prevents later ones from being handled.",
  ["histories", "schedules", "fault_sequences"], "all histories of gateway datagrams (responses, requests, acks, repeats, losses, garbage) and connection times, with a fake transport and a virtual clock",
  "The client has no tests.",
  [K+"client/knxnet_ip.py"], [("datagram_received", K+"client/knxnet_ip.py"), ("writer", K+"client/knxnet_ip.py")],
  [("connected", "a connect response was accepted", K+"client/knxnet_ip.py")], ["datagrams given to the transport"])
p("C24", "The USB client exchanges one hexadecimal line per frame with the daemon",
  "The USB client writes each of its messages once, in order, as the encoded frame in hexadecimal followed by a newline, and decodes every line it receives, however the bytes are split on the connection, in order, delivering each to the datapoints of the associated access points; after its last message it stops running. A line that is no decodable frame, whatever its octets and its length, is skipped without affecting later ones.",
  ["histories", "schedules"], "all message lists, received line sequences and chunkings, with in-memory streams and a virtual clock",
  "The client has no tests.",
  [K+"client/usbhid.py"], [("reader and writer tasks", K+"client/usbhid.py")], observe=["bytes written to the stream, values delivered"])
p("C25", "Discovery multicasts one search request and survives any gateway's answer",
  "A discovery request (also the module run as a program with the local address as its argument) sends exactly one search request naming the caller's address and port to the KNXnet/IP discovery multicast address and port, and the discovery functions can be awaited from a program's own event loop. "
  "The listener reports each search response it receives with the gateway's endpoint and individual address, whatever device information follows, and datagrams of other services are ignored without failing.",
  ["inputs", "histories"], "all local addresses and ports, all search responses with arbitrary trailing description blocks, other services interleaved",
  "The discovery client has no tests; one search response is decoded in a doctest.",
  [K+"client/knxnet_ip_discovery.py", K+"decode/knxnet_ip/core/search/res.py"], [("Request / Listen protocols", K+"client/knxnet_ip_discovery.py")], observe=["datagrams sent, log of decoded responses"])
p("C26", "The USB daemon relays packets faithfully between clients and the device",
  "The daemon serves the device and the port it is given: every packet the device produces is sent to every connected client as one line of lower-case hexadecimal, and every complete valid hexadecimal line a client sends reaches the device as one packet starting with exactly those octets, in order. "
  "A line that is not valid hexadecimal causes no packet at all, a client that sends such lines, disconnects, fails to connect or does not read what it is sent affects neither the daemon nor the other clients, and neither any input nor any number of clients makes the daemon fail or read or write outside its buffers.",
  ["histories", "inputs", "fault_sequences"], "sequences of client connects, disconnects, valid and invalid lines of 0..113 characters and device packets of 1..56 octets",
  "The daemon has no tests at all.",
  ["daemon/usbhid.c"], [("select loop", "daemon/usbhid.c"), ("read_from_client / write_to_client", "daemon/usbhid.c")], observe=["bytes on the client sockets and on the device"])
p("C27", "Link-layer headers are parsed field by field and telegrams classified correctly",
  "Parsing any complete link-layer frame gives exactly its source, destination, address type, confirmation status, transport code, application code and data octets, with or without application data, and the transport service is classified by the KNX rules: broadcast, group, tag-group, individual, connected, connect, disconnect, acknowledge or negative acknowledge, or none of them. "
  "Setting the transport service, application code, data or address type of a frame under construction changes only the bits concerned and reads back as set.",
  ["inputs"], "all control octets, address pairs, all 256 transport octets x both address types (enumerated), application codes and payloads",
  "The tests parse five captured frames, all group or individual data.",
  [D+"layer/link/ldata.py"], [("L_Data.make_from", D+"layer/link/ldata.py"), ("nsdu classification", D+"layer/link/ldata.py")], observe=["L_Data attributes"])
p("C28", "Stacks and tables in one program do not affect each other",
  "However many tables and stacks a program builds, from the same collections or over the same tables, an operation on one table (adding, removing, associating, disassociating) shows only in that table and the stacks over it, and a frame encoded or decoded by one stack moves only that stack's counters and channel; stacks that share tables see the same tables. "
  "Building and changing tables never modifies the collections they were built from, changing those collections afterwards never modifies the tables, and changing a value received from the bus alters no other message. "
  "Any collection of initial entries may be given, also one that can be read only once.",
  ["histories", "configurations"], "all interleavings of table operations, encodes, decodes, acknowledgements and connections over two to four stacks and one to three sets of tables",
  "Each test builds one stack from its own literals.",
  [D+"layer/network/address_table.py", D+"layer/transport/association_table.py", D+"layer/application/groupobject_table.py", K+"state.py", D+"knxnet_ip/state.py"],
  [("constructors take over the given collections", D+"layer/application/groupobject_table.py")], observe=["tables, State counters, decode_msg / encode_msg results"])
p("C29", "Tables, messages and requests print exactly what they hold",
  "At any time an address table prints its individual address, its capacity and each position with its group address in all three notations; an association table each access point with its addresses in order, followed by the address table; and a group object table each access point with the name of its datapoint type, every entry once. "
  "Every request and decoded message prints its kind with its own contents: access point (with its name if it has one), datapoint type and field values, property selector and data, confirmation status, counters, endpoints and individual address. "
  "Converting to a string and printing give the same text.",
  ["histories", "inputs"], "all table histories with named and unnamed access points, all decoded messages and requests with all datapoint values",
  "Doctests print about twenty constants; no test prints a table after a change or a value other than the sample's.",
  [D+"layer/network/address_table.py", D+"layer/transport/association_table.py", D+"layer/application/groupobject_table.py", K+"datapointtypes.py", D+"layer/application/a_group_value_write/ind.py"],
  [("__repr__ of tables and messages", D+"layer/network/address_table.py")], observe=["repr and str of tables, messages and requests"])
p("C30", "A datapoint built from a dictionary holds exactly the values given",
  "Building a datapoint from a type's name and a dictionary of any of its fields, in any order, gives a new datapoint of that type in which each field given (enumerated fields by name, scaled ones in their unit) reads as given and each field not given reads as zero, leaves the dictionary as it was, and sends on the bus the octets those fields stand for. "
  "A type name nothing has, a field the type does not have and a name outside a field's enumeration are refused with an error and influence no datapoint built before or later.",
  ["inputs"], "all datapoint types, all subsets and orders of their fields with all legal values; wrong types, fields and names",
  "Two dictionaries are shown in doctests; partial ones, other orders and wrong names are not.",
  [K+"datapointtypes.py"], [("DPT_Factory.make", K+"datapointtypes.py")], observe=["DPT_Factory.make, fields and value of the result, encode_msg"])
p("C31", "The group object table gives each access point its latest datapoint type",
  "After any sequence of associations and disassociations, starting from any initial entries, the group object table lists each access point that has a datapoint type once, with the type it was last associated with, and a telegram becomes a message for exactly those access points associated with its address that have a type at that moment. "
  "Access points are told apart by number alone, whatever their names, and disassociating one that has no type is refused with an error and changes nothing.",
  ["histories"], "all histories of associate and disassociate over small pools of access points, named and unnamed, with a telegram after every step",
  "One doctest associates and disassociates a single entry; replacing a type, names and decoding after a change are not exercised.",
  [D+"layer/application/groupobject_table.py", D+"layer/transport/association_table.py"],
  [("associate / disassociate", D+"layer/application/groupobject_table.py")],
  [("associations", "access point to datapoint type", D+"layer/application/groupobject_table.py")], ["GroupObjectTable.associations, decode_msg results"])
p("C32", "Messages and values pass between USB clients and the interface end to end",
  "With the daemon running on an interface, every message of every USB client connected to it reaches the interface exactly once, in that client's order, as a packet starting with the message's encoded frame. "
  "Every packet the interface produces, padded or not, is delivered exactly once and in order by every connected client, with the value sent, to exactly the access points its tables associate with the telegram's address, however packets and messages of several clients interleave; each client stops after its last message.",
  ["histories", "configurations", "schedules"], "one to three clients with different tables and message lists, all interleavings with confirmations and telegrams from the interface",
  "Neither the client nor the daemon has a test.",
  [K+"client/usbhid.py", "daemon/usbhid.c", K+"__init__.py"], [("line protocol between client and daemon", "daemon/usbhid.c"), ("reader and writer tasks", K+"client/usbhid.py")],
  observe=["packets at the device, values delivered"])
p("C33", "Tunnelled telegrams reach the client's datapoints once over a lossy network",
  "A tunnelling client started on real sockets delivers every telegram its gateway tunnels exactly once, in order and with its value, to the access points its tables associate with the telegram's address, although the network loses or repeats the gateway's requests or the client's acknowledgements and the gateway repeats a request until it is acknowledged, for any number of telegrams. "
  "Every message of the client reaches the gateway exactly once, in order, from the client's own endpoint on the connection's channel, whatever acknowledgements are lost or repeated and whatever refusals preceded the connection.",
  ["histories", "schedules", "fault_sequences"], "all fault sequences on requests and acknowledgements, up to 560 telegrams, any channel and earlier counter values",
  "The client has no tests.",
  [K+"client/knxnet_ip.py", K+"decode/knxnet_ip/tunneling/req.py", K+"encode/knxnet_ip/tunneling/ack.py"],
  [("datagram_received", K+"client/knxnet_ip.py"), ("expected counter comparison", K+"decode/knxnet_ip/tunneling/req.py")],
  observe=["datagrams at the gateway, values delivered"])
p("C34", "Stacks used by several threads at the same time do not affect each other",
  "When threads of one program build tables, encode requests, decode frames, and read, describe, build and print datapoints and messages at the same time, each with a stack and messages of its own, over its own tables or over tables which no thread changes, then every thread gets exactly the results, counters and errors it would get alone, wherever the threads change over.",
  ["schedules", "histories"], "all change-over points inside the package's code, two or three threads, first uses and repeated ones, all kinds of work",
  "No test starts a thread.",
  [K+"state.py", K+"__init__.py", K+"datapointtypes.py", K+"encode/layer/link/l_data/encode.py", K+"decode/layer/application/a_group_value.py"],
  [("per-stack context of a request or frame", K+"state.py")], observe=["results of encode_msg, decode_msg, tables, datapoints per thread"])
p("C35", "Memory and descriptors do not grow with the traffic processed",
  "Repeating the same work any number of times (encoding, decoding accepted and refused frames, changing tables there and back, building and dropping stacks, describing, building and printing datapoints, or running either client with the same datagrams, lines and messages) takes no more memory after the first repetitions. "
  "The daemon, whatever lines, packets and client connections it has served, holds only the descriptors of its current clients and grows no further.",
  ["histories"], "all workloads of up to fifteen operations repeated up to thousands of times, sessions of hundreds of connections",
  "Every test does its work once.",
  [K+"__init__.py", K+"state.py", K+"client/knxnet_ip.py", K+"client/usbhid.py", "daemon/usbhid.c"],
  [("datagram_received", K+"client/knxnet_ip.py"), ("client slots", "daemon/usbhid.c")], observe=["traced memory, resident size, open descriptors"])
p("C36", "A program's own datapoint types work like the package's",
  "A datapoint type which a program makes as the package makes its own (a union of named fields and a value of one, two or four octets or of less than a byte, or a subclass of one of the package's types), given to an access point in the group object table, is sent with exactly the octets of its value; "
  "a received write or response gives a datapoint of that very type with that value and those fields; and it is described and printed under its own name with its own fields, whatever its name and fields are called and whatever types were used before it.",
  ["inputs", "histories"], "all field layouts and names, all values, several types with one name, all media",
  "The tests use the package's types only.",
  [K+"datapointtypes.py", K+"encode/layer/application/a_group_value_write/encode.py", K+"decode/layer/application/a_group_value.py"],
  [("Description_Factory", K+"datapointtypes.py"), ("al_encode", K+"encode/layer/application/a_group_value_write/encode.py")], observe=["octets encoded, datapoints decoded, descriptions, text"])
p("C37", "Results do not depend on the interpreter's options, hash seed or logging",
  "A program gets the same frames, messages, tables, values, errors and printed text from the package in every process: with assertions or docstrings stripped, with any hash seed, locale, warnings filter or import order, and with logging switched off, left alone or set to any level, and whatever its decimal context.",
  ["inputs", "histories"], "all table histories, frames, requests and client sessions, in five interpreters that differ in these respects",
  "The tests run in one process with one configuration.",
  [K+"datapointtypes.py", K+"state.py", K+"decode/layer/transport/t_data_group/ind.py", K+"definition/layer/network/address_table.py"],
  [("Description_Factory", K+"datapointtypes.py"), ("logging while decoding", K+"decode/layer/transport/t_data_group/ind.py")], observe=["results, errors and text in each process"])
p("C38", "A copied stack or message equals the original and is separate from it",
  "A stack copied with its tables (copy.deepcopy) gives from then on the same frames, messages and text as the original would for the same work, and neither is affected by work on the other. Messages, requests and datapoint values survive copying and pickling: the copy has the same type, contents and text, and changing its datapoint leaves the original's value alone.",
  ["inputs", "histories"], "all table histories, frames and requests, and a copy at any point between them",
  "The tests copy nothing.",
  [K+"state.py", K+"datapointtypes.py", K+"definition/layer/network/address_table.py", K+"definition/layer/transport/association_table.py"],
  [("tables of a State", K+"definition/layer/network/address_table.py"), ("ASAP, messages", K+"definition/layer/transport/association_table.py")], observe=["results of the original and of the copy, printed tables and states"])
p("C39", "A state answers for its current telegram and access point from its tables",
  "At any time a state holds the tables, medium and (over KNXnet/IP) channel it was given, the individual address now configured, and the telegram, access point, application code and address type set last; its two sequence counters read as the number last set modulo 256. For the current telegram it answers the position of the destination, the access points now associated with it and those of them that have a datapoint type now, with it; for the current access point, its positions and addresses now, in the order associated, and its datapoint type now. Changing the tables shows at once, in every state over them.",
  ["histories"], "all histories of table operations, telegrams, access points and counters, for one or two states over the same tables",
  "The doctest asks each question once, over one table.",
  [K+"state.py", K+"definition/knxnet_ip/state.py"],
  [("State", K+"state.py"), ("channel", K+"definition/knxnet_ip/state.py")], observe=["get_tsap, get_asaps, get_asaps_and_dpts, get_tsaps, get_addresses, get_dpt, counters, channel"])
for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
