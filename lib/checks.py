"""Which harnesses decide which property, and within which bounds."""

COMMON = [
    "third-party crates are replaced by bounded models under /verif/models (bytes, tokio, tokio-util, futures-channel, log); witnesses and counterexamples are replayed against the real crates",
    "format! and error payload texts are stubbed; error kinds are kept",
    "memory safety of unsafe code is not part of the query (Rust panics, arithmetic overflow and assertions are)",
    "single-threaded execution: every schedule is a sequence of poll calls",
]


def H(crate, module, name, cap=8, tier="quick", timeout=800, fs=256, cost=1):
    return {"crate": crate, "path": "%s::proof::%s" % (module, name), "name": name, "cap": cap,
            "tier": tier, "timeout": timeout, "fs": fs, "cost": cost}


ADDR = COMMON[:0] + [
    "the storage of `bytes` is replaced by a bounded model (models/bytes); counterexamples and witnesses are replayed with the real crate",
    "texts and names are ASCII",
]

TENTACLE = COMMON[:4]
SECURE = COMMON[:1] + COMMON[2:] + ["error texts are not formatted"]

CHECKS = {
    "C01": {
        "harnesses": [
            H("yamux", "codec", "codec_roundtrip", cap=40, cost=9),
            H("yamux", "codec", "codec_chunks", cap=40, cost=8),
            H("yamux", "codec", "codec_bytes", cap=40, cost=3),
            H("yamux", "codec", "codec_reencode", cap=40, cost=3),
            H("yamux", "codec", "codec_flags", cap=40),
        ],
        "bounds": "all byte strings of up to 17 bytes (header plus up to 5 body or trailing bytes) and all 32-bit frame size limits; all cuts into two chunks; two consecutive frames of every kind with all 32-bit ids, lengths, deltas, codes and bodies of up to 3 bytes",
        "assumptions": COMMON,
    },
    "C02": {
        "harnesses": [
            H("yamux", "stream", "stream_recv3", cost=5),
            H("yamux", "stream", "stream_recv2", cost=4),
        ],
        "bounds": "one stream with a window of 4 bytes, opened by either side (two rounds) or by the remote (three rounds); each round the remote sends a data frame of 0 to 5 bytes, within its credit or not, and the application reads up to 1 to 4 bytes",
        "assumptions": COMMON,
    },
    "C03": {
        "harnesses": [
            H("yamux", "stream", "stream_eof", cost=5),
            H("yamux", "stream", "stream_eof_shut", cost=5),
        ],
        "bounds": "two data frames of 0 to 2 bytes, then an end in one of four ways (finish flag on the data, finish flag alone, reset, session gone), before or after the local side has shut down its sending side; reads of 1 or 2 bytes",
        "assumptions": COMMON,
    },
    "C04": {
        "harnesses": [
            H("yamux", "stream", "stream_send", cost=5),
            H("yamux", "stream", "stream_wake"),
        ],
        "bounds": "one stream with a window of 4 bytes; two writes of 1 to 5 bytes, each followed by a window update of any 32-bit amount",
        "assumptions": COMMON,
    },
    "C05": {
        "harnesses": [
            H("yamux", "stream", "stream_life_in", cost=5),
            H("yamux", "stream", "stream_life_out", cost=5),
        ],
        "bounds": "all sequences of three operations out of write, shut down, read, and the remote finishing, resetting, sending a byte (acknowledging the stream if it was opened here) or finishing with a byte, then dropping the stream; opened by either side",
        "assumptions": COMMON,
    },
    "C06": {
        "harnesses": [
            H("yamux", "session", "session_admit", cost=4),
            H("yamux", "session", "session_admit_dup", cost=4),
            H("yamux", "session", "session_open", cost=2),
            H("yamux", "session", "session_backlog"),
        ],
        "bounds": "two requests of the remote for a stream, as data or window update, with the same id or different ones, the first stream kept or given up in between; at most 0, 1 or 2 streams, accept backlog 0 or 1; two streams opened locally by a client or a server, the first kept or given up",
        "assumptions": COMMON,
    },
    "C07": {
        "harnesses": [
            H("yamux", "session", "session_local_away", cost=3),
            H("yamux", "session", "session_local_away2", cost=3),
            H("yamux", "session", "session_away_keep", cost=3),
            H("yamux", "session", "session_remote_away", cost=2),
            H("yamux", "session", "session_ping"),
        ],
        "bounds": "two pings with all flag combinations and all 32-bit ids; a session with one open stream that is told to go away with any of the three codes, whose transport ends or fails, or that goes away itself (a new stream requested and a byte received meanwhile) and is answered, not answered until the write timeout, or cut off; keepalive off, or on with an interval shorter than the write timeout",
        "assumptions": COMMON,
    },
    "C08": {
        "harnesses": [
            H("yamux", "session", "session_blocked", cost=5),
            H("yamux", "session", "session_blocked4", cost=5),
            H("yamux", "session", "session_blocked2", cost=5),
            H("yamux", "session", "session_slow_a", cost=4),
            H("yamux", "session", "session_slow_b", cost=4),
            H("yamux", "session", "session_slow_c", cost=4),
            H("yamux", "session", "session_route_a", cost=3),
            H("yamux", "session", "session_route_b", cost=3),
            H("yamux", "session", "session_route_x", cost=3),
        ],
        "bounds": "two open streams and two data frames for either of them or for neither; a stream with 9 unread frames (its queue is full) while one or two more arrive for it and one for another stream, read at once or in two goes; three data frames sent while the transport refuses data during any subset of the sends, four during some, with one or two polls of the session in between; all byte values",
        "assumptions": COMMON,
    },
    "C09": {
        "harnesses": [
            H("multiaddr", "binary", n, cap=48 if "p2p" in n or n == "addr_peer" else 24, cost=c)
            for n, c in [("addr_bytes_2", 5), ("addr_bytes_4", 5), ("addr_bytes_6", 5), ("addr_pair_a", 3), ("addr_pair_b", 3),
                         ("addr_pair_c", 3), ("addr_pair_d", 3), ("addr_replace_a", 3), ("addr_replace_b", 3), ("addr_names", 2),
                         ("addr_ws_ip6", 2), ("addr_ip4_tcp", 2), ("addr_p2p", 2), ("addr_write", 1), ("addr_write_p2p", 1), ("addr_push", 1), ("addr_peer", 1)]
        ],
        "bounds": "every kind of component with all ports, all IPv4 and IPv6 addresses, names of two ASCII characters and SHA-256 peer hashes with two symbolic bytes; every truncation of them (of the long ones, near both ends); all pairs of four kinds; one component out of all strings of up to 2, 4 and 6 bytes; peer hashes of 33 to 35 bytes with any header",
        "assumptions": ADDR,
    },
    "C10": {
        "harnesses": [
            H("multiaddr", "text", n, cap=24, cost=c)
            for n, c in [("text_port", 4), ("text_show_ip4", 3), ("text_ip4", 2), ("text_show_name", 2), ("text_two", 2), ("text_bad", 2),
                         ("text_name", 1), ("text_show_port", 1), ("text_flag", 1), ("text_show_flag", 1)]
        ],
        "bounds": "parsing: port numbers of 1, 4 and 5 arbitrary characters, names of two ASCII characters, IPv4 addresses with one- and two-digit octets, a name followed by a port, five kinds of malformed text; printing: all ports, names of two ASCII characters, IPv4 addresses with one- and three-digit octets",
        "assumptions": ADDR + ["the search for '/' in a text is answered from the harness's own knowledge of where its segments end", "the textual forms of IPv6 addresses and peer hashes are not looked at"],
    },
    "C11": {
        "harnesses": [
            H("secio", "choose", "choose_mixed", cap=48, cost=4),
            H("secio", "choose", "choose_agreement", cap=48, cost=3),
            H("secio", "choose", "choose_cipher", cap=48, cost=2),
            H("secio", "choose", "choose_digest", cap=48, cost=2),
        ],
        "bounds": "two lists of up to three names of arbitrary ASCII characters, as long as the known names; and, for names of different lengths, permutations of the three known names; either side preferred",
        "assumptions": SECURE + ["the comma between arbitrary names of the same length is found from the harness's own knowledge of that length"],
    },
    "C12": {
        "harnesses": [
            H("secio", "channel", n, cap=8, cost=3) for n in ("channel_vec", "channel_in_place", "channel_blocked", "channel_refused")
        ] + [
            H("secio", "cipher", n, cap=32, cost=2) for n in ("cipher_order", "cipher_changed", "cipher_resized", "cipher_misplaced")
        ],
        "bounds": "channel: two or three messages of one to three arbitrary bytes, read with buffers of one to six bytes, the second arriving before or after the first was read, a transport that refuses data for a while, a first or second frame that the cipher refuses, for ciphers that decrypt in place and that do not; ciphers: all three, up to three messages of one to three bytes, every change of the bytes of a frame, frames cut to 0, 15, 16 and 18 of 19 bytes or extended, repeated, skipped, swapped, from the other direction",
        "assumptions": SECURE + ["openssl's authenticated encryption is ideal: what was not encrypted with the same cipher, key and nonce does not decrypt", "the channel is driven with a cipher of the harness that counts frames, the ciphers without the channel"],
    },
    "C13": {
        "harnesses": [
            H("secio", "channel", "channel_nonce", cap=8, cost=3),
            H("secio", "channel", "channel_nonce_in_place", cap=8, cost=3),
            H("secio", "cipher", "cipher_fresh", cap=32, cost=2),
            H("secio", "cipher", "cipher_late", cap=32, cost=2),
        ],
        "bounds": "an echo of 0 to 6 arbitrary bytes in one or two frames for a nonce of four bytes, the connection ending afterwards; three encryptions of the same arbitrary byte; the encryption and decryption after any number of messages up to 65535",
        "assumptions": SECURE + ["openssl's authenticated encryption is ideal"],
    },
    "C14": {
        "harnesses": [H("secio", "peer", "peer_bytes", cap=48)],
        "bounds": "byte strings of 0, 3, 33, 34 and 35 bytes with any length byte, the hash codes of SHA-1, SHA-256 and SHA-512, three symbolic content bytes",
        "assumptions": SECURE + ["the hash code takes one byte"],
    },
    "C15": {
        "harnesses": [
            H("tentacle", "addr", "addr_v4", cap=48),
            H("tentacle", "addr", "addr_v6", cap=48),
            H("tentacle", "addr", "addr_back", cap=48),
            H("tentacle", "addr", "addr_shape", cap=48),
            H("tentacle", "addr", "addr_peer_last", cap=48),
            H("tentacle", "addr", "addr_peer_first", cap=48),
            H("tentacle", "addr", "addr_peer_between", cap=48),
        ],
        "bounds": "every IPv4 and every IPv6 address, every port; eight shapes of up to three components (ip, tcp, dns4, ws, p2p) with a symbolic address, port and two symbolic bytes of the peer id",
        "assumptions": TENTACLE + ["an IP component followed directly by another IP component is left out"],
    },
    "C16": {
        "harnesses": [
            H("tentacle", "version", "version_pick", cap=48),
            H("tentacle", "version", "version_few", cap=48),
        ],
        "bounds": "two ascending lists of 0 to 4 arbitrary versions",
        "assumptions": TENTACLE + ["versions are bytes instead of texts: the selection is generic in the type"],
    },
    "C17": {
        "harnesses": [H("tentacle", "queue", n, cap=48) for n in (
            "queue_order_a", "queue_order_b", "queue_order_c", "queue_full", "queue_none",
            "queue_end_a", "queue_end_b", "queue_end_c", "queue_kept")],
        "bounds": "four messages with arbitrary contents and every assignment of the two priorities, received after none, two or a mix of them; capacities 0 to 2; the queue closed from either side or by its last sender with two messages in it; a buffer kept in front of the queue",
        "assumptions": TENTACLE + ["operations do not overlap: the lock-free list is checked between calls, not within one"],
    },
    "C18": {
        "harnesses": [H("tentacle", "handler", n, cap=48) for n in (
            "handler_two_a", "handler_two_b", "handler_stray", "handler_closed", "handler_shutdown")],
        "bounds": "two sessions with up to two messages each; a symbolic choice among twenty orders of their events, with messages before the start and after the end, a session closed at every point, and the service shut down before every event",
        "assumptions": TENTACLE + ["contents of the messages are fixed, different bytes", "the handler itself does not panic"],
    },
    "C19": {
        "harnesses": [H("tentacle", "protocol", n, cap=48) for n in (
            "send_late_a", "send_late_b", "send_idle_a", "send_idle_b", "send_free",
            "part_late", "part_idle", "part_free",
            "receive_a", "receive_b", "receive_c")],
        "bounds": "three messages of one symbolic byte with all priorities (a selection of them for the separate writing part), sent while the transport takes them, while it takes nothing after the first with the protocol running after each, or before the protocol runs; four received messages with any one of the three listeners not listening and room for one event, with and without a message waiting to be sent",
        "assumptions": TENTACLE + ["the transport buffers one message before it insists on transmitting", "contents of received messages are fixed, different bytes"],
    },
    "C20": {
        "harnesses": [H("tentacle", "own", n, cap=48) for n in ("own_open", "own_closed", "own_shutdown")],
        "bounds": "one handler of one session; a symbolic choice among thirteen orders of opening, up to two messages, closing and opening again, handled one by one or several at once, with the session closed or the service shut down at every point",
        "assumptions": TENTACLE + ["contents of the messages are fixed, different bytes", "the handler itself does not panic"],
    },
}

NOT_APPLICABLE = {}

CRATES = sorted({h["crate"] for c in CHECKS.values() for h in c["harnesses"]})
