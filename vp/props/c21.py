"""C21 ZMQConfig parsing and formatting against an independent grammar"""
import re

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require

from scaled.utility.zmq_config import ZMQConfig
from scaled.utility.zmq_config import ZMQType

TECHNIQUE = "property-based testing (Hypothesis) of parse/format round trips against an independent grammar"
LEVEL_NOTE = "Exploration of generated address strings (valid, mutated, arbitrary) and part combinations; trusts the grammar in the harness."
ASSUMPTIONS = ["grammar: tcp://HOST:PORT with HOST non-empty without ':' and PORT a canonical decimal 0..65535; "
               "ipc://NAME and inproc://NAME with non-empty NAME"]

TCP = re.compile(r"tcp://([^:]+):(0|[1-9][0-9]*)\Z", re.S | re.A)
OTHER = re.compile(r"(ipc|inproc)://(.+)\Z", re.S)
TAME = re.compile(r"[A-Za-z0-9._*/@-]+\Z")

host = st.one_of(
    st.sampled_from(["127.0.0.1", "localhost", "*", "0.0.0.0", "a", "example.com", "/tmp/sock", "a-b_c", "x" * 80]),
    st.text("abc019.-_*/@", min_size=1, max_size=12),
)
odd_host = st.one_of(host, st.text(max_size=6), st.sampled_from(["", ":", "a:b", "::1", "[::1]", "a://b", "//", " ", "a\nb"]))
port = st.one_of(st.integers(0, 65535), st.sampled_from([0, 1, 80, 65535]))
odd_port = st.one_of(
    port.map(str),
    st.sampled_from(["", "65536", "-1", "+80", " 80", "80 ", "080", "00", "8_0", "0x50", "1e3", "80.0", "a", "\u0661", "\u00b2",
                     "99999999999999999999", "80:81", "None", "True", "8\n", "80/"]),
    st.text(max_size=4),
)


def strings():
    valid = st.one_of(
        st.tuples(st.just("tcp"), host, port).map(lambda t: f"{t[0]}://{t[1]}:{t[2]}"),
        st.tuples(st.sampled_from(["ipc", "inproc"]), host).map(lambda t: f"{t[0]}://{t[1]}"),
    )
    near = st.one_of(
        st.tuples(st.sampled_from(["tcp", "tcp", "ipc", "inproc", "TCP", "udp", "", "tcp ", "http", "ZMQType.tcp"]),
                  st.sampled_from(["://", "://", "://", ":/", "//", "", ":///"]), odd_host,
                  st.sampled_from([":", ":", ":", "", "::", "/"]), odd_port).map("".join),
        st.tuples(st.sampled_from(["ipc", "inproc"]), st.sampled_from(["://", ":", ""]), odd_host).map("".join),
    )
    # a valid one with one edit
    def edit(t):
        s, i, j, c = t
        i %= len(s) + 1
        return s[:i] + c + s[i + j:]

    mutated = st.tuples(valid, st.integers(0, 90), st.integers(0, 2), st.sampled_from(["", ":", "/", "1", "a", " ", "://"])).map(edit)
    return st.one_of(valid, near, mutated, st.text(max_size=20))


def reference(s):
    """(type, host, port) or None"""
    m = TCP.match(s)
    if m:
        return ("tcp", m.group(1), int(m.group(2))) if int(m.group(2)) <= 65535 else None
    m = OTHER.match(s)
    if m:
        return (m.group(1), m.group(2), None)
    return None


def run_string(s):
    want = reference(s)
    try:
        c = ZMQConfig.from_string(s)
    except (ValueError, TypeError) as e:
        # odd but grammatical hosts may be refused as well
        require(want is None or not TAME.match(want[1]), f"valid address {s!r} is refused: {e!r}")
        return Case(want is None and "://" in s, ["refused"])
    if want is None:
        raise Violation(f"malformed address {s!r} is accepted as {c!r}")
    got = (c.type.value, c.host, c.port)
    require(got == want and type(c.port) is type(want[2]), f"{s!r} parses to {got!r}, expected {want!r}")
    text = c.to_address()
    require(text == s, f"{s!r} formats back as {text!r}")
    return Case(True, ["accepted", want[0]])


def parts():
    return st.fixed_dictionaries({
        "t": st.sampled_from(["tcp", "tcp", "ipc", "inproc", "str"]),
        "h": st.one_of(odd_host, st.sampled_from([None, 5])),
        "p": st.one_of(port, st.none(), st.integers(-3, 70000), st.booleans(), st.sampled_from(["80", 80.0, 1 << 70])),
    })


def run_parts(plan):
    t = ZMQType(plan["t"]) if plan["t"] != "str" else "tcp"
    h, p = plan["h"], plan["p"]
    tcp = plan["t"] == "tcp"
    sane = (plan["t"] != "str" and isinstance(h, str) and h != "" and TAME.match(h) is not None
            and ((tcp and type(p) is int and 0 <= p <= 65535) or (not tcp and p is None)))
    try:
        c = ZMQConfig(t, h, p)
    except (ValueError, TypeError) as e:
        require(not sane, f"valid parts {plan!r} are refused: {e!r}")
        return Case(True, ["refused"])
    text = c.to_address()
    try:
        back = ZMQConfig.from_string(text)
    except (ValueError, TypeError) as e:
        raise Violation(f"{c!r} formats to {text!r} which is refused: {e!r}")
    require((back.type, back.host, back.port) == (t, h, p) and type(back.port) is type(p),
            f"{c!r} formats to {text!r} which parses as {back!r}")
    require(back == c, f"{c!r} != {back!r}")
    require(reference(text) == (plan["t"], h, p), f"{c!r} formats to {text!r} which is malformed")
    return Case(True, ["constructed"])


CHECKS = [
    Check("string", strings, run_string, 16000, 600000,
          "address strings: valid, near-valid, one-edit mutations and arbitrary text; non-trivial: accepted, or refused "
          "although it has a scheme separator"),
    Check("parts", parts, run_parts, 8000, 300000,
          "type/host/port combinations; non-trivial: each distinct combination"),
]
