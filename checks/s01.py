"""S01: multi-block random access files against a dict model."""
import io
import uuid
import zipfile
import zlib

import pydantic
from lsst.pipe.base.quantum_graph._multiblock import (
    Address, AddressReader, AddressWriter, InvalidQuantumGraphFileError, MultiblockReader, MultiblockWriter,
)

from vlib.core import Spec, run, short

MAXU = 2**128 - 1


class Model(pydantic.BaseModel):
    a: int
    b: str


class Zlib:
    def compress(self, data):
        return zlib.compress(data)

    def decompress(self, data):
        return zlib.decompress(data)


def rand_ids(rng, n):
    shape = rng.choice(["dense", "random", "clusters", "extremes", "strided", "uuid7ish"])
    s = set()
    if shape == "dense":
        b = rng.choice([0, rng.getrandbits(128) >> 1, MAXU - n])
        s = {b + i for i in range(n)}
    elif shape == "random":
        while len(s) < n:
            s.add(rng.getrandbits(128))
    elif shape == "clusters":
        while len(s) < n:
            b = rng.getrandbits(128)
            for i in range(rng.randint(1, 6)):
                if len(s) < n and b + i <= MAXU:
                    s.add(b + i)
    elif shape == "extremes":
        s = {0, 1, MAXU, MAXU - 1, 2**127, 2**127 - 1, 2**64, 2**64 - 1}
        s = set(sorted(s)[:n])
        while len(s) < n:
            s.add(rng.getrandbits(rng.choice([1, 8, 64, 128])) if rng.random() < .9 else rng.getrandbits(128))
    elif shape == "strided":
        k = rng.choice([2, 3, 256])
        b = rng.getrandbits(100)
        s = {b + k * i for i in range(n)}
    else:
        b = rng.getrandbits(48)
        while len(s) < n:
            s.add(((b + len(s) // 3) << 80) | rng.getrandbits(80))
    return [uuid.UUID(int=i) for i in s], shape


def build(ctx):
    rng = ctx.rng
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 40, 100, 200])
    ids, shape = rand_ids(rng, n)
    n_addr = rng.choice([1, 1, 2, 3])
    int_size = rng.choice([2, 3, 4, 8])
    maxlen = 200 if int_size == 2 else 600
    blocks = []   # list of dict id->bytes in write order
    for j in range(n_addr):
        order = ids[:]
        rng.shuffle(order)
        if rng.random() < 0.6:
            order = [i for i in order if rng.random() < 0.8]
        blocks.append({i: rng.randbytes(rng.choice([0, 1, 2, 17, rng.randint(0, maxlen // 4 if int_size == 2 else maxlen)])) for i in order})
    if int_size == 2:
        # keep the file addressable with 2-byte integers
        for b in blocks:
            tot = 0
            for k in list(b):
                if tot + len(b[k]) + 2 > 60000:
                    b[k] = b""
                tot += len(b[k]) + 2
    present = set().union(*blocks) if blocks else set()
    return rng, ids, shape, n_addr, int_size, blocks, present


def absent_ids(rng, present, extra):
    c = set()
    for k in present:
        for d in (-1, 1, 2):
            if 0 <= k.int + d <= MAXU:
                c.add(uuid.UUID(int=k.int + d))
    c |= {uuid.UUID(int=0), uuid.UUID(int=MAXU), uuid.UUID(int=rng.getrandbits(128))} | set(extra)
    return sorted(c - present, key=lambda u: u.int)


def expect_row(present_sorted, idx, addrs, key):
    return idx[key], [a.get(key, Address(0, 0)) for a in addrs]


def check_row(ctx, row, key, idx, addrs, what):
    ctx.ev("row_read")
    ctx.equal(row.key, key, "row-key", what)
    ctx.equal(row.index, idx[key], "row-index", what)
    want = [(a[key].offset, a[key].size) if key in a else (0, 0) for a in addrs]
    ctx.equal([(x.offset, x.size) for x in row.addresses], want, "row-addresses", what)


def random_access(ctx):
    rng, ids, shape, n_addr, int_size, blocks, present = build(ctx)
    use_zip = rng.random() < 0.6
    zbuf = io.BytesIO()
    mb_streams = []
    aw = AddressWriter()
    if use_zip:
        zf = zipfile.ZipFile(zbuf, "w", compression=rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]))
        for j, b in enumerate(blocks):
            with MultiblockWriter.open_in_zip(zf, f"b{j}", int_size, use_tempfile=rng.random() < 0.3) as w:
                for k, v in b.items():
                    a = w.write_bytes(k, v)
                    ctx.check(a.size == len(v) + int_size, "address-size", f"{a} for {len(v)} bytes")
                    ctx.ev("block_written")
            aw.addresses.append(w.addresses)
        aw.write_to_zip(zf, "addr", int_size=int_size)
        zf.close()
        zf = zipfile.ZipFile(io.BytesIO(zbuf.getvalue()))
        ctx.check(zf.testzip() is None, "zip-corrupt", "")
        addr_data = zf.read("addr.addr")
        mb_data = [zf.read(f"b{j}.mb") for j in range(n_addr)]
    else:
        mb_data = []
        for b in blocks:
            s = io.BytesIO()
            w = MultiblockWriter(s, int_size)
            for k, v in b.items():
                w.write_bytes(k, v)
                ctx.ev("block_written")
            aw.addresses.append(w.addresses)
            mb_data.append(s.getvalue())
        s = io.BytesIO()
        aw.write(s, int_size)
        addr_data = s.getvalue()
    ctx.equal(set(aw.get_all_ids()), present, "all-ids")
    srt = sorted(present, key=lambda u: u.int)
    idx = {k: i for i, k in enumerate(srt)}
    addrs = aw.addresses
    # Independent check of the file layout of blocks: disjoint, in order, exact.
    for b, a, d in zip(blocks, addrs, mb_data):
        off = 0
        for k, v in b.items():
            ctx.equal((a[k].offset, a[k].size), (off, len(v) + int_size), "address-layout")
            off += len(v) + int_size
        ctx.equal(len(d), off, "block-file-size")
    row_size = 16 + int_size * (1 + 2 * n_addr)
    page_size = rng.choice([1, row_size - 1, row_size, row_size + 1, 2 * row_size, 3 * row_size + 5, 7 * row_size, 5_000_000])
    for trial in range(2):
        zstream = use_zip and rng.random() < 0.7
        stream = zf.open("addr.addr") if zstream else io.BytesIO(addr_data)
        rd = AddressReader.from_stream(stream, page_size=page_size, n_addresses=n_addr, int_size=int_size)
        ctx.equal(rd.n_rows, len(present), "n-rows")
        missing = absent_ids(rng, present, [i for i in ids if i not in present])
        ops = [("find", k) for k in rng.choices(srt, k=min(3 * len(srt), 60))] if srt else []
        ops += [("absent", k) for k in rng.sample(missing, min(len(missing), 25))]
        rng.shuffle(ops)
        if rng.random() < 0.5:
            ops.insert(rng.randint(0, len(ops)), ("all", None))
        if rng.random() < 0.3:
            ops.append(("all", None))
        found = {}
        for op, k in ops:
            if op == "find":
                try:
                    row = rd.find(k)
                except LookupError:
                    ctx.violate("stored-id-not-found", f"id {k.int} of {shape} ids {[u.int for u in srt][:30]} page_size={page_size} row_size={row_size}")
                check_row(ctx, row, k, idx, addrs, f"find page_size={page_size}")
                found[k] = row
            elif op == "absent":
                ctx.ev("absent_lookup")
                e = ctx.raises(LookupError, lambda: rd.find(k), "absent-id-found", f"{k.int} {shape}")
            else:
                ctx.ev("read_all")
                rows = rd.read_all()
                ctx.equal(set(rows), present, "read-all-keys")
                for kk, row in rows.items():
                    check_row(ctx, row, kk, idx, addrs, "read_all")
        for j, b in enumerate(blocks):
            if use_zip and rng.random() < 0.5:
                cm = MultiblockReader.open_in_zip(zf, f"b{j}", int_size=int_size)
            else:
                import contextlib
                cm = contextlib.nullcontext(MultiblockReader(io.BytesIO(mb_data[j]), int_size))
            with cm as r:
                for k, row in rng.sample(sorted(found.items(), key=lambda t: t[0].int), min(len(found), 20)):
                    got = r.read_bytes(row.addresses[j])
                    ctx.ev("block_read")
                    ctx.equal(got, b.get(k), "block-content", f"block {j} of {k}")
            if use_zip:
                seq = list(MultiblockReader.read_all_bytes_in_zip(zf, f"b{j}", int_size=int_size, page_size=rng.choice([1, 16, 1000, 5_000_000])))
                ctx.ev("sequential_read", len(seq))
                ctx.equal(seq, list(b.values()), "sequential-content", f"block file {j}")
    ctx.raises(InvalidQuantumGraphFileError, lambda: AddressReader.from_stream(io.BytesIO(addr_data), page_size=100, n_addresses=n_addr + 1, int_size=int_size), "bad-header-accepted", "n_addresses")
    ctx.raises(InvalidQuantumGraphFileError, lambda: AddressReader.from_stream(io.BytesIO(addr_data), page_size=100, n_addresses=n_addr, int_size=int_size + 1), "bad-header-accepted", "int_size")
    if len(present) > 1:
        ctx.sig(shape, len(present), n_addr, int_size, page_size // row_size, use_zip, [u.int for u in srt[:4]])
    ctx.sample(dict(shape=shape, rows=len(present), n_addr=n_addr, int_size=int_size, page_size=page_size, zip=use_zip))


def models(ctx):
    rng = ctx.rng
    n = rng.randint(0, 20)
    ids, _ = rand_ids(rng, n)
    objs = {i: Model(a=rng.randint(-5, 10**9), b="".join(rng.choice('abc"é\n{}') for _ in range(rng.randint(0, 40)))) for i in ids}
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as zf:
        with MultiblockWriter.open_in_zip(zf, "m", 8, use_tempfile=rng.random() < 0.5) as w:
            for k, o in objs.items():
                w.write_model(k, o, Zlib())
    with zipfile.ZipFile(io.BytesIO(buf.getvalue())) as zf:
        with MultiblockReader.open_in_zip(zf, "m", int_size=8) as r:
            ks = list(objs)
            rng.shuffle(ks)
            for k in ks:
                ctx.ev("model_read")
                ctx.equal(r.read_model(w.addresses[k], Model, Zlib()), objs[k], "model-content")
            ctx.check(r.read_model(Address(), Model, Zlib()) is None, "absent-block", "zero-size address")
        ctx.equal(list(MultiblockReader.read_all_models_in_zip(zf, "m", Model, Zlib(), int_size=8, page_size=100)), list(objs.values()), "model-sequence")
    if n > 1:
        ctx.sig(n, [u.int for u in ids[:3]])


def truncation(ctx):
    rng, ids, shape, n_addr, int_size, blocks, present = build(ctx)
    if len(present) > 40:
        keep = set(rng.sample(sorted(present, key=lambda u: u.int), 40))
        blocks = [{k: v for k, v in b.items() if k in keep} for b in blocks]
        present = set().union(*blocks)
    aw = AddressWriter()
    mb = []
    for b in blocks:
        s = io.BytesIO()
        w = MultiblockWriter(s, int_size)
        for k, v in b.items():
            w.write_bytes(k, v)
        aw.addresses.append(w.addresses)
        mb.append(s.getvalue())
    s = io.BytesIO()
    aw.write(s, int_size)
    data = s.getvalue()
    srt = sorted(present, key=lambda u: u.int)
    idx = {k: i for i, k in enumerate(srt)}
    row_size = 16 + int_size * (1 + 2 * n_addr)
    for cut in sorted({0, 1, len(data) - 1, *[rng.randrange(len(data)) for _ in range(12)]}):
        ctx.ev("truncation_point")
        page_size = rng.choice([1, row_size, 3 * row_size, 10**6])
        t = data[:cut]
        try:
            rd = AddressReader.from_stream(io.BytesIO(t), page_size=page_size, n_addresses=n_addr, int_size=int_size)
        except InvalidQuantumGraphFileError:
            ctx.ev("truncation_detected")
            continue
        for k in rng.sample(srt, min(8, len(srt))) + absent_ids(rng, present, [])[:4]:
            try:
                row = rd.find(k)
            except InvalidQuantumGraphFileError:
                ctx.ev("truncation_detected")
                continue
            except LookupError:
                ctx.check(k not in present, "truncated-id-lost", f"cut={cut} of {len(data)}: stored id reported absent")
                continue
            ctx.check(k in present, "absent-id-found", "in truncated file")
            check_row(ctx, row, k, idx, aw.addresses, f"truncated at {cut}/{len(data)}")
        if srt:
            rd = AddressReader.from_stream(io.BytesIO(t), page_size=page_size, n_addresses=n_addr, int_size=int_size)
            ctx.raises(InvalidQuantumGraphFileError, rd.read_all, "truncation-undetected", f"read_all cut={cut} of {len(data)}")
    for b, a, d in zip(blocks, aw.addresses, mb):
        if not d:
            continue
        for cut in [rng.randrange(len(d)) for _ in range(5)]:
            r = MultiblockReader(io.BytesIO(d[:cut]), int_size)
            for k in rng.sample(list(b), min(5, len(b))):
                try:
                    got = r.read_bytes(a[k])
                except InvalidQuantumGraphFileError:
                    ctx.ev("truncation_detected")
                    continue
                if a[k].offset + a[k].size > cut:
                    ctx.violate("truncation-undetected", f"block cut at {cut}: {a[k]} -> {short(got)}")
                else:
                    ctx.equal(got, b[k], "block-content", "in truncated file")
    if srt:
        ctx.sig(len(srt), n_addr, int_size, [u.int for u in srt[:3]])


SPEC = Spec(
    pid="S01", level="exploration",
    rule="random record sets (0-200 ids; dense, clustered, strided, extreme, random ids; 1-3 block files with missing blocks; 2-8 byte ints), page sizes around row-size boundaries, "
         "raw and zip streams, random find/absent/read_all orders compared with a dict; truncation at random byte positions must give the right row or an error; non-trivial = more than one record, distinct by shape/size/ids",
    kinds={"random_access": (random_access, 10000, 200000), "models": (models, 800, 10000), "truncation": (truncation, 4000, 60000)},
    required=["row_read", "absent_lookup", "read_all", "block_read", "sequential_read", "truncation_detected", "model_read"],
    assumptions=["corruption other than truncation is left to the zip layer's CRC"],
)
if __name__ == "__main__":
    run(SPEC)
