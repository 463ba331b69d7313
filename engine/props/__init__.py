"""property id -> (module, function, what is analysed)"""
REGISTRY = {
    'C01': ('panics', 'c01', 'Abstract interpretation of the MIR of every public decoder over an arbitrary input; every assert, bounds check, '
            'overflow check, unwrap/expect and panic call reached on any feasible path is an obligation.'),
    'C02': ('panics', 'c02', 'As C01 for every other public synchronous function (constructors, accessors, text parsers, encoders) over arbitrary arguments.'),
}
REGISTRY.update({
    'C04': ('codec', 'c04', 'Abstract interpretation of every encoder over an arbitrary message: header octets, service identifier, total length and nested lengths of the symbolic octet sequence.'),
    'C05': ('codec', 'c05', 'Composition of each encoder with its decoder over an arbitrary message: the decoder must accept the symbolic octets on every path and rebuild every field.'),
})
REGISTRY.update({
    'C06': ('codec', 'c06', 'On every accepting path of every frame decoder over arbitrary octets, the path facts must pin header, version, service identifier and the fixed lengths.'),
    'C07': ('codec', 'c07', 'On every accepting path of every decoder over arbitrary octets, the path facts must imply that all announced octets were present, and the result must hold no filled-in octets.'),
    'C09': ('codec', 'c09', 'Every path of the classifier over an arbitrary datagram: accepted kinds pin the service identifier, errors exclude every valid frame of a known kind.'),
})
REGISTRY.update({
    'C25': ('data', 'c25', 'Bit-level abstract interpretation of the address constructors, encoders, decoders and text parsers over arbitrary parts, numbers and text.'),
    'C26': ('data', 'c26', 'Every path of each octet-to-code conversion over an arbitrary octet against the declared discriminants.'),
    'C27': ('data', 'c27', 'Composition of each datapoint constructor, encoder, decoder and accessor over arbitrary values, at bit level.'),
    'C28': ('data', 'c28', 'Constant propagation of the type code through every function that makes a datapoint value.'),
    'C29': ('data', 'c29', 'Abstract interpretation of APDU, TPDU and L_Data request encoding over arbitrary addresses, payloads and priorities.'),
    'C30': ('floats', 'c30', 'Decoder read as a multilinear polynomial over the sixteen bits, compared with 0.01*M*2^E; encoder and decoder composed path by path as affine forms over the interval of values that takes the path.'),
    'C31': ('floats', 'c31', 'Encoder and accessor composed as an affine form over all percentages from 0 to 100, rounding and saturation as bounded deviations.'),
    'C34': ('data', 'c34', 'Every path of the cEMI and L_Data decoders over arbitrary octets; each field must be the octets or bits the format says.'),
})
REGISTRY.update({
    'C10': ('session', 'c10', 'Typestate analysis of the session task over all event histories: every tunnelled frame received is followed by exactly its acknowledgement.'),
    'C11': ('session', 'c11', 'Typestate analysis of the session task: every decodable telegram is put on the queue exactly once, undecodable content is skipped.'),
    'C12': ('session', 'c12', 'Typestate analysis of the session task including every suspension point: no datagram in hand is abandoned when another branch wins.'),
    'C13': ('session', 'c13', 'Typestate analysis of the session task around disconnect requests and responses, and of the monitor state query.'),
    'C16': ('session', 'c16', 'Typestate analysis of the connect handshake, the session store and its invalidation in the session task.'),
    'C17': ('session', 'c17', 'Typestate and timer analysis of the session task: every wait of an open session includes the heartbeat, each tick sends a state request.'),
})
REGISTRY.update({
    'C03': ('ops', 'c03', 'As C01 for every public asynchronous operation and the background tasks, over every I/O outcome and every datagram.'),
    'C08': ('ops', 'c08', 'Taint analysis of the octets a receive buffer holds beyond the datagram, through every decision, frame, queued message and result.'),
    'C14': ('ops', 'c14', 'Typestate analysis of the session counter: each request takes and advances it once under one acquisition of the session lock.'),
    'C15': ('ops', 'c15', 'Data-flow analysis of channel, sequence number and endpoint of every sent request back to one acquisition of the session lock.'),
    'C18': ('ops', 'c18', 'Every suspension of a client operation and of the connect handshake on socket or queue must lie under a time limit.'),
    'C19': ('ops', 'c19', 'Effect analysis: which functions reach a receive on the session socket.'),
    'C20': ('ops', 'c20', 'Lock-order graph and held-lock sets at every suspension, over all operations and background tasks.'),
})
REGISTRY.update({
    'C21': ('ops', 'c21', 'Typestate and data-flow analysis of a group read over all sequences of queued messages: request octets, decision to return or skip, returned octets.'),
    'C22': ('ops', 'c22', 'Typestate and data-flow analysis of a group write over all sequences of queued messages: request octets and the condition of success.'),
    'C23': ('ops', 'c23', 'Typestate analysis of the monitor wait over all sequences of queued messages.'),
    'C24': ('ops', 'c24', 'Typestate and data-flow analysis of discovery over all sequences of datagrams and timings.'),
    'C35': ('ops', 'c35', 'Length of the buffer at every receive of the session tasks and of all operations, over all paths.'),
    'C38': ('text', 'c38', 'Abstract interpretation of the formatting of addresses over text values made of literals and printed numbers, compared with the notation for every value.'),
    'C39': ('text', 'c39', 'Abstract interpretation of every decoder on symbolic octets and of every constructor followed by its encoder on symbolic arguments; fields and octets compared with the frame layouts of the standard.'),
    'C37': ('text', 'c37', 'Abstract interpretation of the constructor over names of every length and character, and of the accessor for each length of name over all octets.'),
    'C36': ('listen', 'c36', 'Typestate of the listener list in the session task of the monitor, followed for each listener and outcome; content of the list at every unlock.'),
    'C33': ('ops', 'c33', 'Typestate of the telegram queue in the group operations of the client: seen empty between the operation getting its turn and its request, over all paths.'),
    'C32': ('session', 'c32', 'Typestate of the session task without a session: time spent between connect requests, bounds of its waits, and the events after which it may end, over all paths.'),
})
