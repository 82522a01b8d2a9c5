"""Jobs (harness + bounds) deciding each property, and the known-findings file."""
import re
PROPS = {}
COMMON_ASSUMPTIONS = [
  "rustc and LLVM translate the crate to IR correctly; the IR is compiled with overflow checks and debug assertions, optimised as in release mode",
  "the engine's model of memory, libc and an in-memory file system (sampled completed paths are run natively and their traces compared)",
  "system calls do not fail unless the property is about faults; allocations fail from 32 GiB on; logging is disabled",
  "texts of error messages are built with one concrete value per path and not checked",
  "values, lengths and layouts are those of the jobs listed in the evidence; nothing is claimed beyond them",
]

def job(fn, *params, tier="quick", time=60, **kw):
    d = {"fn": fn, "params": list(params), "tier": tier, "time": time, "cost": kw.pop("cost", 1)}
    d.update(kw); return d

def prop(pid, jobs, assumptions=()):
    PROPS[pid] = {"jobs": jobs, "assumptions": list(assumptions)}

def load_known(path):
    """known: property=<id> job=<regex> where=<regex> input=<regex> :: text   (fixed: lines suppress nothing)"""
    out = []
    try: lines = open(path).read().splitlines()
    except OSError: return out
    for l in lines:
        m = re.match(r"known: property=(\S+) job=(\S+) where=(\S+) input=(\S+) :: (.*)$", l)
        if m: out.append(m.groups())
    return out

def match_known(known, pid, job, v):
    jn = job["fn"] + ":" + ",".join(map(str, job["params"])); site = (v["where"] + "|" + v["msg"]).replace(" ", "_")
    for kp, kj, kw, ki, txt in known:
        if kp == pid and re.fullmatch(kj, jn) and re.search(kw, site) and re.fullmatch(ki, v["input"]): return txt
    return None

LE, BE = 0, 1
BIG = dict(steps=2000000000, mem=8000, time=200, cost=8)
FMT = range(1, 13)
prop("T01", [job("h_tag_roundtrip", be, g, f, n, reach=["unknown"]) for be in (LE, BE) for g in range(4) for f in FMT for n in (1, 2, 5) if not (g == 2 and n == 2)]
  + [job("h_tag_roundtrip", be, g, f, n, tier="thorough", time=300) for be in (LE, BE) for g in range(4) for f in FMT for n in (3, 4, 6, 9, 17)]
  + [job("h_layout_roundtrip", be, 0, reach=["ok"]) for be in (LE, BE)] + [job("h_layout_roundtrip", be, 1, tier="quick", cost=9, reach=["ok"]) for be in (LE, BE)])
prop("T02", [job("h_tag_bytes", be, g, f, n, reach=["ok"]) for be in (LE, BE) for g in range(4) for f in FMT for n in (1, 2, 5) if not (g == 2 and n == 2)]
  + [job("h_tag_bytes", be, g, f, n, tier="thorough", time=300) for be in (LE, BE) for g in range(4) for f in FMT for n in (3, 4, 6, 9, 17)]
  + [job("h_layout_bytes", be, 1, cost=9, reach=["ok"]) for be in (LE, BE)] + [job("h_odd_tags", be, k, reach=["ok"]) for be in (LE, BE) for k in range(7)])
prop("T03", [job("h_tiff_image", be, df, pg, st, op, cost=5, reach=["ok"]) for be in (LE, BE) for df in (0, 1) for (pg, st) in ((1, 4), (2, 3)) for op in range(4)]
  + [job("h_tiff_image", be, df, pg, st, op, tier="thorough", time=600) for be in (LE, BE) for df in (0, 1) for (pg, st) in ((1, 3), (2, 4), (3, 4)) for op in range(4)]
  + [job("h_tiff_required", reach=["ok"])])
prop("T04", [job("h_tiff_read_entry", be, f, 8 if f != 2 else 4, 0, 65536, cost=70 if f in (1,2,7) else 30, time=100) for be in (LE,) for f in (1,2,3,4,5,7,8,9,12)]
  + [job("h_tiff_read_entry", BE, f, 8, 0, 65536, tier="thorough", time=600) for f in (1,3,4,5,6,7,9,10,11)]
  + [job("h_tiff_read_pair", *a, cost=c, time=200) for (a, c) in (((LE, 0, 8, 0, 2), 15), ((LE, 1, 8, 0, 1), 20), ((BE, 2, 4, 1, 2), 30), ((BE, 3, 4, 0, 1), 10), ((BE, 4, 4, 0, 1), 3), ((LE, 5, 4, 0, 1), 3), ((LE, 6, 4, 0, 1), 3))]
  + [job("h_tiff_read_pair", be, k, 12, 1, 2, tier="thorough", time=1200) for be in (LE, BE) for k in range(7)]
  + [job("h_tiff_read_raw", n) for n in (8, 14, 20)] + [job("h_tiff_read_raw", 24, tier="thorough", time=900)])
prop("M01", [job("h_history", 4, cost=5, reach=["ok"]), job("h_lookup", reach=["ok"]), job("h_history", 6, tier="thorough", time=1200)])
prop("M02", [job("h_tag_table", g, reach=["known", "unknown"]) for g in range(4)] + [job("h_format_table", reach=["type", "none"])])
prop("M03", [job("h_reduce", 0, g, f, cost=5, reach=["ok"]) for g in range(4) for f in (3, 4, 7)] + [job("h_reduce", 1, g, f, tier="thorough", time=1200) for g in range(4) for f in (2, 3, 4, 5, 7)])
CONV = [(4, 3), (4, 1), (3, 4), (3, 1), (1, 3), (10, 5), (5, 10), (7, 2), (1, 2), (2, 7), (4, 9), (7, 1), (2, 3)]
prop("V01", [job("h_convert", be, g, o, t, n) for (o, t) in CONV for be in (LE, BE) for g in (0, 1, 3) for n in (0, 1, 2)]
  + [job("h_convert", be, g, o, t, n, tier="thorough", time=300) for (o, t) in CONV for be in (LE, BE) for g in range(4) for n in (3, 4, 5)])
prop("V02", [job("h_rational_int", k, reach=["ok"]) for k in range(8)] + [job("h_rational_big", s, reach=["nan", "big"]) for s in (0, 1)]
  + [job("h_rational_frac", *a, cost=5) for a in ((0, 1, 2, 8, 0), (1, 1, 3, 4, 1073741820), (0, 1, 3, 8, 2147483500), (0, 1, 2, 4, 4294967280), (0, 1, 7, 8, 100), (1, 3, 8, 6, 2147483580), (0, 2, 3, 6, 0), (1, 1, 10, 6, 0))])
prop("V03", [job("h_bytes_num", t, n) for t in range(12) for n in (0, 3, 4, 8, 9, 16)] + [job("h_bytes_text", n, 0) for n in (0, 1, 2, 3)] + [job("h_bytes_text", n, 1) for n in (4, 5, 6)]
  + [job("h_bytes_text", 4, 0, tier="thorough", time=900)])
prop("D01", [job("h_detect", n) for n in (3, 4, 12, 32)] + [job("h_ending", n) for n in (3, 4, 5)])

ANY = 13
prop("J01", [job("h_jpg_write", sc, tr, a, b, 0, 1, 3, cost=4, reach=["ok"]) for (sc, tr, a, b) in ((0, 3, ANY, ANY), (1, 2, ANY, 0), (1, 0, 2, ANY), (2, 0, ANY, 2))]
  + [job("h_jpg_write", 0, 2, a, 0, 0, 2, 2, cost=4, reach=["ok"]) for a in (2, 3, 9)] + [job("h_jpg_write", 0, 0, ANY, 2, 0, k, n, cost=3, reach=["ok"]) for k in (0, 1, 2) for n in (0, 4)]
  + [job("h_jpg_read", sc, tr, a, b, c, cost=3, reach=["found"]) for (sc, tr, a, b, c) in ((0, 2, ANY, ANY, 0), (0, 2, ANY, 2, ANY), (1, 2, ANY, ANY, 0), (2, 0, ANY, 2, 0))]
  + [job("h_jpg_write", sc, 1, a, 0, 0, k, n, cost=3, reach=["ok"]) for (sc, a, k, n) in ((60, 0, 1, 2), (61, 2, 4, 0), (41, ANY, 4, 0), (52, 3, 1, 3))] + [job("h_jpg_write", 0, 1, a, b, 0, 1, 3, reach=["ok"], **BIG) for (a, b) in ((14, 2), (2, 14))] + [job("h_jpg_write", 0, 1, 2, 0, 0, 5, 1, cost=20, time=200, reach=["ok"])] + [job("h_jpg_read", 0, 0, 14, 2, 0, reach=["found"], **BIG)]
  + [job("h_jpg_size", n, steps=200000000, cost=4, reach=[w]) for (n, w) in ((65472, "fits"), (65473, "fits"), (65488, "refused"), (65490, "refused"), (70000, "refused"))]
  + [job("h_jpg_write", 0, 2, ANY, ANY, ANY, 1, 3, tier="thorough", time=1200), job("h_jpg_write", 1, 2, ANY, ANY, 0, 2, 3, tier="thorough", time=1200)])
prop("J02", [job("h_jpg_clear", sc, tr, a, b, c, op, cost=4, reach=["ok"]) for op in (0, 1, 2) for (sc, tr, a, b, c) in ((0, 3, ANY, ANY, 0), (1, 2, ANY, 0, 0), (2, 0, ANY, ANY, 0), (1, 4, 12, ANY, 2))]
  + [job("h_jpg_clear", sc, 1, a, 2, 0, op, cost=3, reach=["ok"]) for op in (0, 1, 2) for (sc, a) in ((60, 0), (61, 5), (42, 6))] + [job("h_jpg_clear", 0, 1, 14, 2, 0, op, reach=["ok"], **BIG) for op in (0, 1, 2)]
  + [job("h_jpg_clear", 0, 2, ANY, ANY, ANY, op, tier="thorough", time=1200) for op in (0, 1, 2)] + [job("h_jpg_clear", 1, 2, ANY, ANY, 0, op, tier="thorough", time=1200) for op in (0, 1, 2)])
JM = (0xe1, 0xda, 0xe0, 0xec, 0xed, 0x01, 0xff)
prop("J03", [job("h_jpg_raw", n, op, 0, cost=3) for n in (0, 1, 5, 10) for op in range(5)] + [job("h_jpg_segment", m, 6, op, 0, 0, cost=2) for m in JM for op in range(5)] + [job("h_jpg_segment", 0xe1, n, op, 0, 0, cost=2) for n in range(0, 4) for op in range(5)]
  + [job("h_file_raw", 0, 6, op, 0, 0) for op in (0, 1, 2)]
  + [job("h_jpg_raw", 14, op, 0, tier="thorough", time=1200) for op in range(5)] + [job("h_jpg_segment", m, 10, op, 0, 0, tier="thorough", time=1200) for m in JM for op in range(5)])
XMPS = range(20, 40)
prop("P01", [job("h_png_write", tr, a, ANY, 0, 1, cost=5, reach=["ok"]) for (tr, a) in zip((0, 3, 1, 0, 2, 0, 1, 0, 3, 0, 1), range(1, 12))]
  + [job("h_png_write", 2, 0, ANY, ANY, k, cost=40, time=200, reach=["ok"]) for k in (2,)] + [job("h_png_write", 1, a, b, c, k, cost=2, reach=["ok"]) for k in range(5) for (a, b, c) in ((0, 0, 0), (1, 3, ANY), (4, 0, 2), (9, 5, 1))]
  + [job("h_png_write", 0, k, 0, 2, 1, reach=["ok"]) for k in XMPS]
  + [job("h_png_write", 0, k, 0, 0, 1000 + n, reach=["ok"], **BIG) for (k, n) in ((0, 47), (2, 48), (0, 49), (0, 50), (3, 947), (0, 948), (0, 949), (0, 950), (0, 9947), (4, 9948), (0, 9949), (0, 9950), (0, 65000), (5, 99948), (0, 99950))] + [job("h_png_write", 0, 14, 1, 0, 1, reach=["ok"], **BIG)]
  + [job("h_png_read", 2, ANY, ANY, 0, cost=3, reach=["found", "none"]), job("h_png_read", 0, 0, ANY, ANY, cost=3, reach=["found"])] + [job("h_png_read", 0, k, ANY, 0, reach=["found"]) for k in XMPS] + [job("h_png_profile", n, reach=["ok"]) for n in (0, 1, 2, 5, 30)]
  + [job("h_png_write", 2, ANY, ANY, ANY, 1, tier="thorough", time=1500), job("h_png_read", 2, ANY, ANY, ANY, tier="thorough", time=1500)])
prop("P02", [job("h_png_clear", 2, ANY, ANY, 0, cost=12, reach=["ok"]), job("h_png_clear", 0, 0, ANY, ANY, cost=12, reach=["ok"])] + [job("h_png_clear", 1, k, a, b, reach=["ok"]) for k in XMPS for (a, b) in ((0, 0), (1, 0), (ANY, 3))]
  + [job("h_png_clear", 0, 2, 14, 1, reach=["ok"], **BIG)]
  + [job("h_png_clear", 1, ANY, ANY, ANY, tier="thorough", time=1500)])
PCH = [(0, 0, 6), (1, 0, 3), (1, 1, 2), (2, 1, 3), (3, 1, 4), (3, 2, 4), (2, 2, 3), (1, 2, 2), (1, 3, 2), (1, 4, 3), (4, 0, 2), (1, 5, 3), (1, 7, 1), (3, 6, 3), (2, 4, 4), (2, 8, 2), (3, 4, 4), (1, 9, 2), (1, 10, 3)]
prop("P03", [job("h_png_raw", n, op, 0, cost=3) for n in (0, 4, 11, 16) for op in range(3)] + [job("h_png_chunk", *a, op, 0, cost=5, time=200) for a in PCH for op in range(3)] + [job("h_png_damage", op, reach=["ok"]) for op in range(3)] + [job("h_file_raw", 2, 14, op, 0, 0) for op in (0, 1, 2)]
  + [job("h_png_raw", 20, op, 0, tier="thorough", time=1200) for op in range(3)] + [job("h_png_chunk", *a, op, 0, tier="thorough", time=1200) for a in ((2, 8, 3), (3, 1, 5), (3, 2, 5), (2, 1, 4), (2, 2, 4), (1, 10, 5), (1, 9, 4)) for op in range(3)])
prop("W01", [job("h_webp_write", 0, ANY, ANY, ANY, 1, 3, cost=8, reach=["ok"]), job("h_webp_write", 3, ANY, ANY, 0, 1, 2, reach=["ok"])] + [job("h_webp_write", f, a, b, c, k, n, reach=["ok"]) for f in (1, 2) for (a, b, c) in ((0, 0, 0), (ANY, 8, 0), (8, ANY, 0)) for (k, n) in ((0, 0), (1, 4), (2, 3))]
  + [job("h_webp_write", 0, ANY, 5, ANY, k, n, cost=2, reach=["ok"]) for k in (0, 1, 2) for n in (0, 2, 7)] + [job("h_webp_read", 0, ANY, ANY, ANY, cost=4, reach=["found", "none"])] + [job("h_webp_chunk_data", n, reach=["ok"]) for n in (0, 1, 4, 5)]
  + [job("h_webp_write", f, ANY, 4, ANY, 4, 0, cost=2, reach=["ok"]) for f in (0, 3)] + [job("h_webp_write", 1, 0, 9, 0, 5, 1, cost=20, time=200, reach=["ok"])] + [job("h_webp_write", 0, 0, 4, 0, 6, n, reach=["ok"], **BIG) for n in (204, 205, 206, 65485, 65486, 65487, 65536, 70001)] + [job("h_webp_write", f, 14, 1, 0, 1, 3, reach=["ok"], **BIG) for f in (0, 1, 2)] + [job("h_webp_read", 0, 14, 1, 0, reach=["found"], **BIG)]
  + [job("h_webp_write", 3, ANY, ANY, ANY, 2, 5, tier="thorough", time=1500)])
prop("W02", [job("h_webp_clear", f, ANY, ANY, ANY, cost=4, reach=["ok"]) for f in (0, 3, 1, 2)] + [job("h_webp_clear", f, 1, 14, 1, reach=["ok"], **BIG) for f in (0, 1)])
WRAW = [("h_webp_raw", 4, 0), ("h_webp_raw", 7, 1), ("h_webp_raw", 12, 1), ("h_webp_raw", 13, 1), ("h_webp_raw", 20, 1)] + [("h_webp_first", f, n) for f in range(4) for n in (3, 9, 14, 15)] + [("h_webp_second", k, n) for k in (0, 1) for n in (3, 6, 14, 20)]
prop("W03", [job(*a, op, 0, ascii=True, cost=3) for a in WRAW for op in range(3)] + [job("h_file_raw", 3, n, op, 0, 0, ascii=True, cost=3) for n in (0, 7, 12, 13, 20) for op in (0, 1, 2)]
  + [job("h_webp_raw", n, 1, op, 0, ascii=True, tier="thorough", time=1500) for n in (24, 28) for op in range(3)] + [job("h_webp_first", f, 24, op, 0, ascii=True, tier="thorough", time=1500) for f in range(3) for op in range(3)] + [job("h_webp_second", 0, 30, op, 0, ascii=True, tier="thorough", time=1500) for op in range(3)],
  ["Chunk names compared regardless of case are ASCII"])
prop("X01", [job("h_jxl_write", l, *a, k, n, cost=3, reach=["ok"]) for (l, a, k, n) in ((0, (ANY, ANY, ANY), 1, 3), (1, (ANY, 0, 0), 1, 3), (2, (ANY, ANY, 0), 1, 2), (3, (0, ANY, ANY), 1, 4), (4, (0, 0, 0), 2, 3), (4, (0, 0, 0), 0, 0), (0, (ANY, 0, ANY), 0, 0), (0, (1, ANY, 0), 2, 5), (3, (ANY, 0, 3), 2, 4))]
  + [job("h_jxl_write", l, ANY, 3, ANY, 4, 0, cost=2, reach=["ok"]) for l in (0, 3)] + [job("h_jxl_write", 0, 1, 0, 0, 5, 1, cost=20, time=200, reach=["ok"])] + [job("h_jxl_write", 0, 0, 0, 0, 6, n, reach=["ok"], **BIG) for n in (200, 256, 65470, 65480, 65536, 70001)] + [job("h_jxl_write", 0, 14, 1, 0, 1, 3, reach=["ok"], **BIG), job("h_jxl_read", 0, 14, 1, 0, reach=["found"], **BIG)]
  + [job("h_jxl_read", l, *a, cost=2, reach=["found"]) for (l, a) in ((0, (ANY, ANY, ANY)), (1, (ANY, ANY, 0)), (2, (ANY, 0, 0)), (3, (ANY, 0, ANY)))]
  + [job("h_jxl_write", l, ANY, ANY, ANY, k, 6, tier="thorough", time=1500) for l in (0, 1, 2, 3) for k in (1, 2)])
prop("X02", [job("h_jxl_clear", l, *a, cost=2, reach=["ok"]) for (l, a) in ((0, (ANY, ANY, ANY)), (1, (ANY, ANY, 0)), (2, (ANY, ANY, 0)), (3, (ANY, ANY, ANY)))] + [job("h_jxl_clear", 0, 1, 14, 1, reach=["ok"], **BIG)])
XRAW = [("h_jxl_raw", n) for n in (0, 4, 7, 8, 12)] + [("h_jxl_box", k, n, more) for k in (0, 2, 3, 4, 5) for (n, more) in ((0, 0), (4, 1), (8, 0))] + [("h_jxl_box", 1, 2, 0)]
prop("X03", [job(*a, op, 0, cost=2) for a in XRAW for op in range(3)] + [job("h_jxl_box", 1, n, 1, op, 0) for n in (0, 4, 8) for op in (1, 2)]
  + [job("h_jxl_brotli", n, 0, 0, cost=8, time=200) for n in (0, 1, 2, 3)] + [job("h_jxl_brotli", n, 0, 1, cost=3, time=100) for n in (1, 5, 8)] + [job("h_jxl_brotli", 3, op, 0) for op in (1, 2)] + [job("h_file_raw", 4, n, op, 0, 0, cost=2) for n in (0, 8, 12, 16) for op in (0, 1, 2)]
  + [job("h_jxl_raw", n, op, 0, tier="thorough", time=1500) for n in (16, 20, 24) for op in range(3)] + [job("h_jxl_brotli", 4, 0, 0, tier="thorough", time=1500)])
NI, NM, NO = 9, 5, 7
A = 99
prop("H01", [job("h_heif_write", i, m, A, A, A, 1, 3, cost=3, reach=["ok"]) for (i, m) in ((0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, 0), (6, 1), (7, 2), (8, 3))]
  + [job("h_heif_write", A, m, 0, A, h, k, n, cost=2, reach=["ok"]) for (m, h, k, n) in ((0, 0, 0, 0), (1, 1, 2, 5), (2, 2, 1, 700), (3, 0, 1, 300), (4, 1, 2, 400))]
  + [job("h_heif_write", A, 1, A, A, 0, 4, 0, cost=3, reach=["ok"]), job("h_heif_write", 0, 1, 0, 1, 0, 5, 1, cost=20, time=200, reach=["ok"])] + [job("h_heif_write", A, m, 0, pl, 0, 6, n, reach=["ok"], **BIG) for (m, pl, n) in ((0, 0, 65536), (1, 2, 65470), (2, 1, 255), (3, 3, 256), (4, 2, 70001))] + [job("h_heif_write", A, A, 7, A, 0, 1, 3, reach=["ok"], **BIG), job("h_heif_read", A, A, 7, A, 0, reach=["found"], **BIG)]
  + [job("h_heif_read", A, A, A, A, A, cost=3, reach=["found", "none"])]
  + [job("h_heif_write", A, A, A, A, A, k, n, tier="thorough", time=1500, reach=["ok"]) for (k, n) in ((0, 0), (1, 3), (1, 300), (2, 1000))])
prop("H02", [job("h_heif_clear", i, m, A, A, A, k, n, cost=3, reach=["ok"]) for (i, m, k, n) in ((0, 0, 9, 0), (1, 1, 2, 3), (2, 2, 9, 0), (3, 3, 1, 3), (4, 4, 9, 0), (5, 0, 2, 2), (6, 1, 9, 0), (7, 2, 2, 900), (8, 3, 9, 0))]
  + [job("h_heif_clear", A, 0, A, A, 0, 4, 0, cost=3, reach=["ok"]), job("h_heif_clear", 0, 1, 0, 1, 0, 5, 1, cost=20, time=200, reach=["ok"]), job("h_heif_clear", 3, 2, 1, 3, 1, 5, 1, cost=20, time=200, reach=["ok"]), job("h_heif_clear", A, A, 7, A, 0, 9, 3, reach=["ok"], **BIG), job("h_heif_clear", 1, 0, 0, A, 0, 6, 65536, reach=["ok"], **BIG)]
  + [job("h_heif_clear", A, A, A, A, A, k, n, tier="thorough", time=1500, reach=["ok"]) for (k, n) in ((9, 0), (0, 0), (1, 3), (2, 1000))])
HBOX = [("h_heif_box", b, n) for b in range(6) for n in (4, 8, 12)]
HFIELD = [("h_heif_field", i, m, o, pl, h, b, 1000 + (k0 if b == 0 else k), n) for (i, m, o, pl, h, k0) in ((0, 1, 0, 2, 0, 74), (1, 3, 6, 1, 2, 100), (3, 2, 2, 3, 0, 100)) for (b, k, n) in ((0, 0, 2), (1, 100, 2), (2, 30, 2), (3, 34, 2), (5, 30, 2), (6, 9, 2))] \
  + [("h_heif_field", i, m, o, 2, 0, b, at, 1) for (i, m, o) in ((0, 1, 0), (3, 2, 4)) for b in (4, 7) for at in (0, 1, 2, 4, 7)] + [("h_heif_field", 3, 0, 0, 2, 0, 0, o, 8) for o in range(16, 60, 4)] + [("h_heif_field", 0, 1, 0, 2, 0, 0, o, 4) for o in range(16, 72, 2)]
prop("H03", [job("h_heif_raw", n, op, 0, cost=2) for n in (0, 4, 8, 12, 16) for op in range(3)] + [job(*a, op, 0, cost=2) for a in HBOX + HFIELD for op in range(3)] + [job("h_file_raw", 5, n, op, 0, 0) for n in (0, 8, 12) for op in range(3)]
  + [job("h_heif_raw", n, op, 0, tier="thorough", time=1500) for n in (20, 24) for op in range(3)] + [job("h_heif_box", b, n, op, 0, tier="thorough", time=900) for b in range(6) for n in (16, 20) for op in range(3)]
  + [job("h_heif_field", 0, 1, 0, 2, 0, b, 1000 + k, 4, op, 0, tier="thorough", time=1500) for (b, k) in ((0, 74), (1, 100), (2, 30), (3, 34)) for op in range(3)])
prop("E01", [job("h_encode", f, k, n, reach=[w]) for f in (0, 2, 3, 5) for (k, n) in ((0, 0), (1, 0), (1, 3), (1, 4), (1, 8), (2, 3), (4, 0)) for w in ["ok"]] + [job("h_encode", f, 2, 3, reach=["refused"]) for f in (1, 4, 6)]
  + [job("h_encode", 7, k, 0, reach=["ok"]) for k in (0, 1, 2, 3, 4, 1947, 10947)] + [job("h_encode", f, 5, 1, cost=12, time=150, reach=["ok"]) for f in (0, 3, 5)]
  + [job("h_encode", 0, 6, n, reach=[w], **BIG) for (n, w) in ((204, "ok"), (205, "ok"), (65472, "ok"), (65473, "ok"), (65488, "refused"), (70001, "refused"))] + [job("h_encode", f, 6, n, reach=["ok"], **BIG) for f in (3, 5) for n in (206, 207, 65486, 70001)] + [job("h_encode", 2, 6, n, reach=["ok"], **BIG) for n in (2, 47, 948, 9947, 9948)]
  + [job("h_encode", f, 5, n, tier="thorough", time=1200, reach=["ok"]) for f in (0, 2, 3, 5) for n in (2, 5)])
prop("D02", [job("h_path", c, op) for c in range(9) for op in range(5)] + [job("h_path", 10 + n, op, cost=2) for n in (0, 1, 3, 4, 8, 12) for op in range(5)] + [job("h_missing", reach=["ok"])]
  + [job("h_path", 26, op, tier="thorough", time=1200) for op in range(5)])
prop("F03", [job("h_fault", f, op, e, 130 if f in (3, 6) else 60, mode, reach=["survived" if mode == 2 else "reported"] if not (mode == 3) else []) for f in range(7) for op in range(3) for e in (0, 1) for mode in (1, 2, 3) if not (op == 0 and (f == 6 or e == 0)) and not (f == 1 and e == 0)])
F01 = [job("h_file_jpg", op, sc, 2, a, 0, 0, 1, cost=3) for op in range(7) for (sc, a) in ((0, ANY), (1, 2))]
F01 += [job("h_file_tiff", op, be, df, 1, 4, k, cost=3) for op in range(5) for (be, df) in ((0, 0), (1, 1)) for k in (9, 1)]
F01 += [job("h_file_raw", f, 8, op, 1, 0) for f in (0, 1) for op in (0, 1, 2)]
F01 += [job("h_file_png", op, tr, a, b, 0, 2, cost=3) for op in range(5) for (tr, a, b) in ((0, ANY, 0), (3, 1, ANY), (1, 24, 3))] + [job("h_file_raw", 2, 14, op, 1, 0) for op in (0, 1, 2)]
F01 += [job("h_file_webp", op, f, *a, 2, cost=2) for op in range(5) for (f, a) in ((0, (ANY, ANY, 0)), (0, (6, ANY, 7)), (1, (ANY, 0, 0)), (2, (ANY, 0, 0)), (3, (ANY, 7, 0)))] + [job("h_file_raw", 3, n, op, 1, 0, ascii=True) for n in (8, 12, 13, 20) for op in (0, 1, 2)]
F01 += [job("h_file_jxl", op, l, *a, 2, cost=2) for op in range(5) for (l, a) in ((0, (ANY, ANY, ANY)), (1, (ANY, 0, 0)), (2, (ANY, 0, 0)), (4, (0, 0, 0)))] + [job("h_file_raw", 4, n, op, 1, 0) for n in (8, 12, 16) for op in (0, 1, 2)]
F01 += [job("h_file_heif", op, i, m, A, A, 2, cost=2) for op in range(5) for (i, m) in ((0, 0), (3, 3), (2, 1))] + [job("h_file_raw", 5, n, op, 1, 0) for n in (8, 12) for op in (0, 1, 2)]
F01 += [job("h_readonly", f, reach=["ok"]) for f in range(6)]
prop("F01", F01)
F02 = [job("h_jpg_raw", n, op, 1) for n in (3, 9) for op in (1, 2, 3, 4)] + [job("h_jpg_segment", m, 6, op, 1, 1, cost=2) for m in JM for op in (1, 2, 3, 4)]
F02 += [job("h_jpg_size", 70000, steps=200000000, cost=4, reach=["refused"])]
F02 += [job("h_file_raw", f, 8, op, 0, 1) for f in (0, 1) for op in (1, 2)]
F02 += [job("h_wrong_signature", f, n, op, reach=["refused"]) for f in range(6) for n in (0, 1, 4, 12) for op in (0, 1, 2) if not (f == 1 and op == 2)]
F02 += [job("h_file_tiff", 2, be, 0, 1, 4, 1, reach=["err"]) for be in (0, 1)]
F02 += [job("h_png_raw", n, op, 1, cost=3) for n in (11, 16) for op in (1, 2)] + [job("h_png_chunk", *a, op, 1, cost=5, time=200) for a in PCH for op in (1, 2)] + [job("h_file_raw", 2, 14, op, 0, 1) for op in (1, 2)]
F02 += [job(*a, op, 1, ascii=True, cost=3) for a in WRAW for op in (1, 2)] + [job("h_file_raw", 3, n, op, 0, 1, ascii=True, cost=3) for n in (0, 7, 12, 13, 20) for op in (1, 2)]
F02 += [job(*a[:-2], *a[-2:], op, 1, cost=2) for a in XRAW for op in (1, 2)] + [job("h_jxl_box", 1, n, 1, op, 1) for n in (0, 4, 8) for op in (1, 2)] + [job("h_file_raw", 4, n, op, 0, 1) for n in (0, 8, 12, 16, 20) for op in (1, 2)]
F02 += [job("h_heif_raw", n, op, 1) for n in (8, 12) for op in (1, 2)] + [job(*a, op, 1, cost=2) for a in HBOX + HFIELD[:12] + HFIELD[18:28] + HFIELD[38:44] for op in (1, 2)] + [job("h_file_raw", 5, n, op, 0, 1) for n in (0, 8, 12) for op in (1, 2)]
prop("F02", F02)
