"Shared strategies. Every strategy yields plain data (see base.enc)."

from hypothesis import strategies as st

from vlib.base import pattern, text_pattern

# Sizes around the boundaries that matter: read chunks (8192, 16384), stream
# limits (64 KiB), pipe capacity (64 KiB) and multiples.
EDGES = [0, 1, 2, 255, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193,
         16383, 16384, 16385, 32768, 65535, 65536, 65537, 73728, 131071, 131072, 131073]


def sizes(big=200_000):
    return st.one_of(
        st.integers(0, 64),
        st.integers(0, 3000),
        st.sampled_from([e for e in EDGES if e <= big]),
        st.integers(0, big),
    )


def blobs(big=200_000, small=48):
    "Binary data: literal or pattern."
    return st.one_of(
        st.binary(max_size=small).map(lambda b: {"k": "h", "b": b}),
        st.builds(lambda s, n: {"k": "p", "s": s, "n": n}, st.integers(0, 255), sizes(big)),
        st.builds(lambda s, n: {"k": "t", "s": s, "n": n}, st.integers(0, 255), sizes(big)),
    )


def data(blob):
    if blob["k"] == "h":
        return blob["b"]
    if blob["k"] == "p":
        return pattern(blob["s"], blob["n"])
    return text_pattern(blob["s"], blob["n"])


def write_op(fd, blob, chunk=None):
    "vchild op writing the blob to fd."
    if blob["k"] == "h":
        return f"w:{fd}:{blob['b'].hex()}"
    c = f":{chunk}" if chunk else ""
    return f"{blob['k']}:{fd}:{blob['s']}:{blob['n']}{c}"


# Text without surrogates, with newlines, astral and combining characters.
TEXT_ALPHABET = st.one_of(
    st.sampled_from(list("ab \n\r\t\0xyz0é€ß日本\u0301\u2028\x85𝄞😀\ufeff")),
    st.characters(blacklist_categories=("Cs",)),
)


def texts(max_size=40):
    return st.text(TEXT_ALPHABET, max_size=max_size)


CODECS = ["utf-8", "latin-1", "ascii", "utf-16", "utf-16-le", "utf-32", "cp1252",
          "shift_jis", "utf-8-sig", "gb18030", "iso2022_jp", "utf-7"]
HANDLERS = ["", "strict", "replace", "ignore", "backslashreplace", "surrogateescape"]


def encodings():
    return st.builds(
        lambda c, h: f"{c} {h}".strip(), st.sampled_from(CODECS), st.sampled_from(HANDLERS)
    )


def chunk_plan(max_chunks=6):
    "Relative chunk sizes used to cut data into pieces."
    return st.lists(st.integers(1, 5000), max_size=max_chunks)


def cut(data_, plan):
    "Cut data into pieces by the given plan (last piece takes the rest)."
    out = []
    pos = 0
    for n in plan:
        if pos >= len(data_):
            break
        out.append(data_[pos : pos + n])
        pos += n
    if pos < len(data_):
        out.append(data_[pos:])
    return out
