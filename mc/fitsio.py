"""A small FITS reader written from the standard, independent of the library's one."""
import numpy as np

TYPES = {8: ">u1", 16: ">i2", 32: ">i4", 64: ">i8", -32: ">f4", -64: ">f8"}


class Broken(Exception):
    pass


def value(txt):
    txt = txt.strip()
    if txt.startswith("'"):
        out, i = "", 1
        while i < len(txt):
            if txt[i] == "'":
                if txt[i + 1:i + 2] == "'":
                    out += "'"
                    i += 2
                    continue
                break
            out += txt[i]
            i += 1
        return out.rstrip()
    txt = txt.split("/")[0].strip()
    if txt in ("T", "F"):
        return txt == "T"
    if txt == "":
        return None
    try:
        return int(txt)
    except ValueError:
        return float(txt.replace("D", "E"))


def parse(raw):
    """(cards, data as float or integer array) of the primary part of a FITS file."""
    if len(raw) == 0:
        raise Broken("empty file")
    if len(raw) % 2880:
        raise Broken(f"length {len(raw)} is not a multiple of 2880")
    cards, pos, end = [], 0, False
    while not end:
        blk = raw[pos:pos + 2880]
        if len(blk) < 2880:
            raise Broken("header without END")
        pos += 2880
        for i in range(0, 2880, 80):
            try:
                c = blk[i:i + 80].decode("ascii")
            except UnicodeDecodeError:
                raise Broken("header is not text")
            if c.strip() == "END":
                end = True
                break
            key = c[:8].strip()
            cards.append((key, value(c[10:]) if c[8:10] == "= " else c[8:].rstrip(), c))
    h = {}
    for k, v, _ in cards:
        h.setdefault(k, v)
    if h.get("SIMPLE") is not True:
        raise Broken("not SIMPLE")
    n = h["NAXIS"]
    shape = tuple(h[f"NAXIS{i}"] for i in range(n, 0, -1))
    dt = np.dtype(TYPES[h["BITPIX"]])
    size = int(np.prod(shape)) * dt.itemsize if n else 0
    want = pos + -(-size // 2880) * 2880
    if len(raw) < want:
        raise Broken(f"{len(raw)} bytes instead of {want}")
    if not n:
        return cards, None
    data = np.frombuffer(raw[pos:pos + size], dtype=dt).reshape(shape)
    zero, scale = h.get("BZERO", 0), h.get("BSCALE", 1)
    if dt.kind in "iu":
        data = data.astype(np.int64) if dt.itemsize < 8 else data.astype(object)
        if zero or scale != 1:
            if float(zero).is_integer() and float(scale).is_integer():
                data = data * int(scale) + int(zero)
            else:
                data = data.astype(float) * scale + zero
    else:
        data = data.astype(float)
        if zero or scale != 1:
            data = data * scale + zero
    return cards, data


def read(path):
    with open(path, "rb") as f:
        return parse(f.read())


BITPIX = {"u1": 8, "i2": 16, "i4": 32, "i8": 64, "f4": -32, "f8": -64}


def card(k, v):
    if isinstance(v, bool):
        t = f"{'T' if v else 'F':>20}"
    elif isinstance(v, (int, np.integer)):
        t = f"{v:>20}"
    elif isinstance(v, float):
        t = f"{repr(v).upper():>20}"
    else:
        t = f"'{str(v):<8}'"
    return f"{k:<8}= {t}"[:80].ljust(80)


def write(path, data, **cards):
    """Writes a primary image; the types FITS has no code for are stored with BZERO as usual."""
    data = np.asarray(data)
    extra = []
    if data.dtype.kind == "u" and data.dtype.itemsize > 1:
        n = data.dtype.itemsize
        zero = 1 << (8 * n - 1)
        extra = [("BSCALE", 1), ("BZERO", zero)]
        data = (data.astype(object) - zero).astype(f"i{n}") if n == 8 else (data.astype("i8") - zero).astype(f"i{n}")
    elif data.dtype.kind == "b":
        data = data.astype("u1")
    code = data.dtype.kind + str(data.dtype.itemsize)
    head = [card("SIMPLE", True), card("BITPIX", BITPIX[code]), card("NAXIS", data.ndim)]
    head += [card(f"NAXIS{i + 1}", n) for i, n in enumerate(data.shape[::-1])]
    head += [card(k, v) for k, v in extra] + [card(k.replace("_", "-"), v) for k, v in cards.items()] + ["END".ljust(80)]
    h = "".join(head)
    h += " " * (-len(h) % 2880)
    b = np.ascontiguousarray(data).astype(">" + code).tobytes()
    with open(path, "wb") as f:
        f.write(h.encode() + b + bytes(-len(b) % 2880))
