"""Which jobs decide which property, and within which bounds.

A job is (features, entry, params[, seconds]); features "F" = mdns+dnssec, "D" = default features,
"S" = mdns+dnssec over the ideal cryptography of stubs/.
"""
from itertools import product

F, D, S = "F", "D", "S"

# all record types: fixed part of the set / needs dnssec
BASIC = [1, 2, 5, 6, 10, 11, 12, 13, 14, 15, 16, 28, 29, 33, 35, 41, 42, 44, 45, 49, 52, 55, 61, 62, 64, 108, 109, 249, 250, 256, 257]
SEC = [43, 46, 47, 48, 59, 60]

# specimen kinds of harness/src/spec.rs
K = dict(A=0, AAAA=1, NS=2, CNAME=3, PTR=4, SOA=5, NULL=6, WKS=7, HINFO=8, MINFO=9, MX=10, TXT=11, LOC=12, SRV=13, NAPTR=14,
         OPT=15, APL=16, SSHFP=17, IPSECKEY=18, DHCID=19, TLSA=20, HIP=21, OPENPGPKEY=22, CSYNC=23, SVCB=24, EUI48=25, EUI64=26,
         TKEY=27, TSIG=28, URI=29, CAA=30, DS=31, CDS=32, RRSIG=33, NSEC=34, DNSKEY=35, CDNSKEY=36)
NAMED = [K[x] for x in ("NS", "CNAME", "PTR", "SOA", "MINFO", "MX", "SRV", "NAPTR")]
TEXT = [K[x] for x in ("TXT", "HINFO", "CAA", "URI")]
FIXED = [K[x] for x in ("A", "AAAA", "NULL", "WKS", "LOC", "SSHFP", "DHCID", "TLSA", "OPENPGPKEY", "EUI48", "EUI64", "IPSECKEY", "HIP")]
META = [K[x] for x in ("OPT", "APL", "TKEY", "TSIG")]
DNSSEC = [K[x] for x in ("DS", "CDS", "RRSIG", "DNSKEY", "CDNSKEY")]
ALL = list(range(37))
LV = (0, 1, 2, 3, 4)
EDGE = tuple(range(10, 17))  # the shapes of level 3, one at a time
HEAVY = [K[x] for x in ("SOA", "NAPTR", "HIP", "CSYNC", "SVCB", "TKEY", "TSIG", "RRSIG", "NSEC")]


def r(a, b):
    return [(n, 0) for n in range(a, b + 1)]


def rdlens(deep):
    """(type -> [(length, zero bytes)]): RDATA of any bytes, sizes by what is feasible"""
    x = 1 if deep else 0
    t = {1: r(0, 8), 28: r(0, 1) + r(15, 18), 10: r(0, 9), 11: r(0, 8) + r(20, 20), 13: r(0, 12), 29: r(0, 1) + r(15, 17),
         41: r(0, 14), 42: r(0, 21), 44: r(0, 8), 49: r(0, 8), 52: r(0, 8), 61: r(0, 9), 108: r(5, 8), 109: r(7, 10), 256: r(0, 10),
         43: r(0, 9), 48: r(0, 9), 59: r(0, 9), 60: r(0, 9)}
    for k in (2, 5, 12):
        t[k] = r(0, 7 + 3 * x)
    t[15] = r(0, 8 + 2 * x)
    t[14] = r(0, 5 + x) + [(n, 1) for n in range(2, 9 + 2 * x)]
    t[6] = r(0, 5 + x) + [(n, 2) for n in (20, 21, 22, 24)] + [(n, 1) for n in range(21, 22 + 3 * x)]
    t[33] = r(0, 9 + x)
    t[35] = r(0, 9 + x)
    t[45] = r(0, 7 + x)
    t[55] = r(0, 7 + x)
    t[62] = r(0, 10 + x)
    t[64] = r(0, 5 + x) + [(n, 21) for n in range(6, 14 + 3 * x)]
    t[249] = r(0, 5) + [(n, 1) for n in range(14, 22 + x)]
    t[250] = r(0, 5) + [(n, 1) for n in range(14, 22 + x)]
    t[16] = r(0, 4 + x)
    t[257] = r(0, 5 + x)
    t[46] = r(0, 19) + [(n, 181) for n in range(20, 26)] + ([(20, 0)] if deep else [])
    t[47] = r(0, 4) + [(n, 1) for n in range(3, 6 + x)]
    return t


def per_type(entry, deep, feats=F, tail=(), cap=30):
    out = []
    for ty, ls in sorted(rdlens(deep).items()):
        for n, z in ls:
            out.append((feats, entry, (ty, n, 0) + tuple(tail) + (z,), 3 * cap if ty == 6 and z == 1 else cap))
    return out


def kinds(entry, ks, levels, mid=(), feats=F, cap=30):
    return [(feats, entry, (k, l) + tuple(mid), cap) for k in ks for l in levels]


def uses(how, T, cap):
    """specimens of all kinds, whole and with some octets replaced"""
    j = [(F, "h_use", (k, l, how), cap) for k in ALL for l in EDGE + (4,) if T or (k, l) != (K["TKEY"], 4)]
    j += [(F, "h_use", (k, l, how), cap) for k in ALL if T or k not in HEAVY for l in (0, 1, 2)]
    wide = [K[x] for x in ("SOA", "TXT", "NAPTR", "HIP", "TKEY", "TSIG", "RRSIG")]  # too many offsets in their long shapes
    for k in ALL:
        if k in (K["CSYNC"], K["SVCB"], K["NSEC"]):
            j += [(F, "h_mutant", (k, l, how, 1), cap) for l in EDGE if (k, l) != (K["SVCB"], 13)]
            if T:
                j += [(F, "h_mutant", (k, 0, how, 1), cap)]
            continue
        ws = {K["TSIG"]: (1,), K["RRSIG"]: (1,), K["TKEY"]: (1, 2), K["HIP"]: (1, 2), K["SOA"]: (1, 2)}.get(k, (1, 2, 3))
        j += [(F, "h_mutant", (k, 0, how, w), 2 * cap) for w in ws + ((ws[-1] + 1,) if T else ())]
        if k not in wide or T:
            j += [(F, "h_mutant", (k, l, how, 1), cap) for l in (EDGE if T else (10, 11, 14, 15))]
    return j


TY = dict(A=1, AAAA=28, NS=2, CNAME=5, PTR=12, SOA=6, NULL=10, WKS=11, HINFO=13, MINFO=14, MX=15, TXT=16, LOC=29, SRV=33, NAPTR=35,
          OPT=41, APL=42, SSHFP=44, IPSECKEY=45, DHCID=49, TLSA=52, HIP=55, OPENPGPKEY=61, CSYNC=62, SVCB=64, EUI48=108, EUI64=109,
          TKEY=249, TSIG=250, URI=256, CAA=257, DS=43, CDS=59, RRSIG=46, NSEC=47, DNSKEY=48, CDNSKEY=60)


def reads(ks, T, cap):
    """RDATA of any octets, and specimens with some octets replaced, against the independent reader"""
    t = rdlens(T)
    names = {v: n for n, v in K.items()}
    j = []
    for k in ks:
        ty = TY[names[k]]
        j += [(F, "h_read", (ty, n, z), 3 * cap if ty == 6 and z == 1 else cap) for n, z in t[ty]]
        if k not in (K["CSYNC"], K["SVCB"], K["NSEC"]) or T:
            j += [(F, "h_mutant", (k, 0, 3, 1), cap)]
        if k not in HEAVY or T:
            j += [(F, "h_mutant", (k, 0, 3, 2), cap)]
        j += [(F, "h_mutant", (k, l, 3, 1), cap) for l in (EDGE if T else (10, 11, 14, 15))]
    return j


def plan(prop, tier):
    T = tier == "thorough"
    j = []
    cap = 600 if T else 30
    if prop == "C01":
        j += [(F, "h_any", (n, 0), cap) for n in range(0, 15 if T else 14)]
        j += [(F, "h_any_body", (n, 1000, 0), cap) for n in range(0, 11 if T else 10)]
        j += [(F, "h_any_body", (n, c, 0), cap) for c in (100, 10, 1) for n in range(9, 15 if T else 13)]
        j += [(F, "h_any_body", (n, 2000, 0), cap) for n in ((5, 6, 10, 11) if T else (5, 6))]
        j += [(F, "h_any_body", (n, 1100, 0), cap) for n in ((5, 16, 17) if T else (5,))]
        j += per_type("h_any_rdata", T, tail=(0,), cap=cap)
        j += [(F, "h_any_rdata", (ty, 4, 3, 0, 0), cap) for ty in (2, 5, 6, 12, 14, 15, 47)]
        j += [(F, "h_any_rdata", (ty, n, s, 0, 0), cap) for ty, n in ((1, 3), (1, 4), (16, 3), (41, 6)) for s in (1, 2)]
        j += [(F, "h_any_part", (w, n), cap) for w in (0, 1, 4, 5) for n in ((0, 1, 5, 8) if not T else (0, 1, 5, 8, 10))]
        j += [(F, "h_any_part", (3, n), cap) for n in (0, 11, 12, 13)]
        j += [(F, "h_any_part", (2, n), 4 * cap) for n in ((0, 10, 11, 12) if T else (0, 10, 11))]
        j += [(D, "h_any_body", (n, 100, 0), cap) for n in range(10, 12)]
        j += [(D, "h_any_body", (n, 1000, 0), cap) for n in range(4, 8)]
        j += [(F, "h_chain", (n, x), cap) for n in (16, 200, 3000) for x in (0, 1)]
        j += uses(0, T, cap)
    elif prop == "C02":
        j += [(F, "h_any", (n, 1), cap) for n in range(11, 14)]
        j += [(F, "h_any_body", (n, 1000, 1), cap) for n in range(4, 10 if T else 9)]
        j += [(F, "h_any_body", (n, c, 1), cap) for c in (100, 10, 1) for n in range(11, 15 if T else 13)]
        j += per_type("h_any_rdata", T, tail=(1,), cap=cap)
        j += [(F, "h_any_rdata", (ty, 4, 3, 1, 0), cap) for ty in (2, 5, 12, 14, 15)]
        j += [(F, "h_any_rdata", (ty, n, s, 1, 0), cap) for ty, n in ((1, 4), (16, 3), (41, 6)) for s in (1, 2)]
        j += [(D, "h_any_body", (n, 1000, 1), cap) for n in range(5, 8)]
        j += [(D, "h_any_body", (n, 100, 1), cap) for n in range(11, 13)]
        j += [(F, "h_chain", (n, 1), cap) for n in (200, 300)]
        j += uses(1, T, cap)
    elif prop == "C03":
        j += [(f, "h_header", (), cap) for f in (F, D)]
        j += [(F, "h_any_part", (3, n), cap) for n in range(0, 15)]
        j += [(F, "h_codes", (4,), cap)]
    elif prop == "C04":
        for n in range(0, 5 if T else 4):
            j += [(F, "h_header_set", (n, v), cap) for v in (0, 1)]
        j += [(D, "h_header_set", (2, v), cap) for v in (0, 1)]
    elif prop == "C05":
        j += [(F, "h_history", (n,), cap if T else 100) for n in range(0, 4)]
        j += [(F, "h_many", (n,), cap) for n in ((0, 1, 2, 20, 255, 256, 257, 300) + ((1000, 4096) if T else ()))]
        if T:
            j += [(D, "h_history", (3,), cap)]
    elif prop == "C06":
        for f in (F, D):
            j += [(f, "h_question", (x,), cap) for x in (0, 1)]
            j += [(f, "h_question_parse", (), cap)]
            j += [(f, "h_codes", (x,), cap) for x in (1, 2)]
    elif prop == "C07":
        for f in (F, D):
            j += [(f, "h_record", (x,), cap) for x in (0, 1)]
            j += [(f, "h_record_parse", (), cap)]
            j += [(f, "h_codes", (x,), cap) for x in (0, 3)]
        t = rdlens(T)
        for ty in sorted(t):
            ls = [x[0] for x in t[ty] if x[1] == 0]
            ls = ls[-4:] if not T else ls
            j += [(F, "h_confined", (ty, n), cap) for n in ls]
        j += [(F, "h_rdlength", (k, l), cap) for k in ALL for l in ((0, 1) if T else (0,)) + EDGE + (4,)]
    elif prop == "C08":
        j += [(F, "h_name_decode", (n,), cap) for n in range(0, 12 if T else 10)]
        j += [(F, "h_name_layout", (n,), cap) for n in range(0, 6)]
        j += [(F, "h_chain", (n, x), cap) for n in (1, 16, 200, 3000) for x in (0, 1)]
        if T:
            j += [(D, "h_name_decode", (n,), cap) for n in range(0, 10)]
    elif prop == "C09":
        j += [(F, "h_name_encode", (n,), cap) for n in range(0, 7)]
        j += kinds("h_name_io", [0, 1, 2], [0, 1] + ([2] if T else []), cap=cap)
    elif prop == "C10":
        ks = range(0, 10)
        if T:
            j += [(F, "h_compress", (a, b, w), cap) for a, b, w in product(ks, ks, (0, 1))]
            j += [(F, "h_compress_edge", (k, l), cap) for k in range(0, 41) for l in (0, 1)]
        else:
            j += [(F, "h_compress", (a, (a * 3 + 1) % 10, 0), cap) for a in ks]
            j += [(F, "h_compress", (a, b, 1), cap) for a, b in ((5, 3), (6, 8), (0, 5))]
            j += [(F, "h_compress_edge", (k, 0), cap) for k in range(0, 41)]
        j += [(F, "h_compress_edge", (k, l), cap) for k in range(4, 41) for l in EDGE + (4,)]
        j += [(F, "h_compress_gain", (), cap)]
        j += [(f, "h_compress_fields", (n,), cap) for n in (0, 1, 2) for f in (F, D)]
        j += [(D, "h_compress", (3, 5, 0), cap)]
    elif prop == "C11":
        j += kinds("h_rdata", ALL, LV, cap=cap)
        j += [(F, "h_question", (0,), cap), (F, "h_record", (0,), cap), (F, "h_record", (1,), cap)]
        j += [(F, "h_name_encode", (n,), cap) for n in (0, 2, 6)]
        j += [(F, "h_packet", (k, 0, (k * 7 + 3) % 31), cap) for k in ((0, 5, 9, 11, 15, 24, 30) if not T else ALL)]
        j += [(F, "h_opt", (2,), cap), (F, "h_apl", (), cap), (F, "h_rrset", (2, 1), cap), (F, "h_header", (), cap)]
        j += [(F, "h_history", (1,), cap)]
    elif prop == "C12":
        j += reads(FIXED + TEXT, T, cap)
        j += kinds("h_rdata", FIXED + TEXT, LV, cap=cap)
        j += kinds("h_rdata", FIXED + TEXT, (0,), feats=D, cap=cap)
    elif prop == "C13":
        j += reads(NAMED, T, cap)
        j += kinds("h_rdata", NAMED, LV, cap=cap)
        j += kinds("h_rdata_ptr", NAMED + [K["SVCB"], K["HIP"], K["IPSECKEY"], K["TSIG"], K["TKEY"], K["NSEC"], K["RRSIG"]], (0,), cap=cap)
    elif prop == "C14":
        j += reads([K["CSYNC"], K["NSEC"]], T, cap)
        j += kinds("h_rdata", [K["CSYNC"], K["NSEC"]], LV, cap=cap)
        j += [(F, "h_bitmap", (w, n), cap if T else 60) for w in (0, 1) for n in (0, 1, 2) + ((3,) if T else ())]
        j += [(F, "h_bitmap_wide", (w, n), cap) for w in (0, 1) for n in (1, 8, 32, 33)]
        j += [(F, "h_bitmap_multi", (w, n), cap) for w in (0, 1) for n in (2, 3)]
        j += [(F, "h_bitmap_write", (w, n), cap) for w in (0, 1) for n in ((0, 1, 2, 3) if T else (0, 1, 2))]
        j += [(F, "h_any_rdata", (62, n, 0, 1, 0), cap) for n in range(6, 11)]
        j += [(F, "h_any_rdata", (47, n, 0, 1, 1), cap) for n in range(1, 6)]
    elif prop == "C15":
        j += reads([K["SVCB"]], T, cap)
        j += kinds("h_rdata", [K["SVCB"]], LV, cap=cap)
        j += [(F, "h_svcb", (w,), cap) for w in range(0, 6)]
        j += [(F, "h_stable_rdata", (64, n, 0, 21), cap) for n in range(3, 16 if T else 13)]
        j += [(F, "h_prefix", (K["SVCB"], 0), cap)]
    elif prop == "C16":
        for f in (F, D):
            j += [(f, "h_codes", (x,), cap) for x in range(0, 10)]
    elif prop == "C17":
        j += [(F, "h_buffer", (n, k), cap if T else 60) for n, k in ((0, 2), (1, 2), (2, 2), (4, 2), (5, 2), (3, 3), (6, 3) if T else (6, 2))]
        j += [(F, "h_buffer_long", (n, w), cap) for n in (100, 200, 300) for w in range(4)]
        j += [(F, "h_any_part", (w, n), cap) for w in (4, 5) for n in range(0, 7)]
        if T:
            j += [(F, "h_buffer", (5, 4), cap)]
    elif prop == "C18":
        j += kinds("h_prefix", ALL, (0, 1) if T else (0,), cap=3 * cap)
        j += kinds("h_prefix", ALL, EDGE + (4,), cap=3 * cap)
        j += kinds("h_missing", ALL, (10,), cap=cap)
        j += kinds("h_missing", ALL if T else [0, 6, 2, 11, 15, 30], (0,), cap=cap)
    elif prop == "C19":
        j += [(F, "h_rrset", (n, m), cap) for n in ((1, 2, 3, 4) if T else (1, 2, 3)) for m in (0, 1)]
        j += [(F, "h_rrset_types", (k,), cap) for k in range(0, 4)]
        j += [(F, "h_rrset_types", (4, n), cap) for n in ((5, 21, 50) if not T else (5, 20, 21, 33, 50, 100, 200))]
        j += [(F, "h_rrset_types", (5, n), cap) for n in (6, 7, 8, 15, 16, 31, 32, 63, 64, 127, 255, 256, 511, 512, 1024, 4096)]
    elif prop == "C20":
        j += reads(DNSSEC, T, cap)
        j += kinds("h_rdata", DNSSEC + [K["NSEC"]], LV, cap=cap)
        j += [(F, "h_codes", (8,), cap)]
        j += [(F, "h_any_rdata", (ty, n, 0, 1, 0), cap) for ty in (43, 48, 59, 60) for n in range(0, 9)]
    elif prop == "C21":
        algs = (3, 5, 8, 10, 13, 14, 15, 16)
        for a in algs + (1,):
            j += [(S, "h_ds", (n, sh, a), cap) for n in range(3 if a == 1 else 0, 18) for sh in ((0, 2) if T or a == 8 else (1,))]
            j += [(S, "h_ds", (n, 1, a), cap) for n in ((40, 64, 132, 260, 516, 1028) if not T else (24, 33, 40, 64, 65, 96, 132, 260, 516, 1000, 1028, 2050, 4000))]
        j += [(S, "h_ds", (4, sh, 8), cap) for sh in (3, 4)]
        j += [(S, "h_digest", (n,), cap) for n in (0, 1, 3, 16, 64, 200, 1000)]
        j += [(S, "h_dhcid", (n, sh), cap) for n in (0, 1, 7, 32, 130, 300) for sh in range(0, 5)]
        j += [(S, "h_print", (n, w), cap) for w in (0, 1, 2) for n in ((0, 1, 2, 3, 4, 5, 6, 7) if not T else tuple(range(0, 13))) + (20, 32, 48, 57, 64, 76, 258, 1100)]
        j += kinds("h_rdata", [K["DS"], K["DHCID"]], LV, cap=cap)
    elif prop == "C22":
        for a in (1, 3, 5, 8, 10, 13, 14, 15, 16):
            j += [(S, "h_sign", (a, n, k, sh, w), cap) for n, k, sh, w in
                  [(1, 0, 1, 0), (2, 1, 2, 1), (2, 2, 0, 0), (3, 2, 1, 0), (2, 0, 3, 0), (1, 1, 4, 1), (1, 2, 3, 1)]
                  + ([] if a in (1, 5, 8, 10) else [(1, 3, 1, 0), (2, 3, 1, 0)])
                  + ([(3, 1, 1, 0), (4, 2, 1, 0)] if T else [])]
            ds = range(0, 16 if a in (1, 5, 8, 10) else 14)
            j += [(S, "h_verify", (a, n, k, sh, d), cap) for d in ds for n, k, sh in [(2, 2, 1), (2, 1, 2), (1, 0, 1)] + ([(2, 3, 1)] if d < 2 and a not in (1, 5, 8, 10) else []) + ([(3, 2, 1), (3, 1, 3)] if T else [])]
            j += [(S, "h_verify_any", (a, n, m, o), cap) for n, m, o in ((0, 0, 0), (1, 4, 0), (3, 4, 0), (4, 4, 1), (5, 0, 0), (6, 7, 1))]
            if T:
                j += [(S, "h_verify_any", (a, n, m, 0), cap) for n in range(0, 12) for m in (0, 1, 8, 41)]
            j += [(S, "h_sign_any", (a, n), cap) for n in (0, 1, 2, 5)]
        j += [(S, "h_sign_time", (w,), cap) for w in (0, 1)]
    elif prop == "C23":
        j += [(F, "h_stable_rdata", p[:3] + (p[3],), c) for _, _, p, c in per_type("x", T, cap=cap)]
        j += [(F, "h_stable_body", (n, 1000), cap) for n in range(5, 9 if T else 8)]
        j += [(F, "h_stable_body", (n, c), cap) for c in (100, 10, 1) for n in range(11, 14 if T else 12)]
        j += [(D, "h_stable_body", (n, 1000), cap) for n in range(5, 7)]
        j += [(D, "h_stable_body", (n, 100), cap) for n in range(11, 12)]
        j += [(F, "h_packet", (k, 0, 0 if k in HEAVY or (k * 5 + 2) % 31 in HEAVY else (k * 5 + 2) % 31), cap) for k in ALL]
        j += [(F, "h_packet", (k, l, 0), cap) for k in ALL for l in EDGE]
        j += uses(2, T, cap)
    elif prop == "C24":
        j += [(F, "h_error", (), cap)]
        j += [(F, "h_error_any", (n,), cap) for n in range(0, 7)]
    elif prop == "C26":
        j += reads(META, T, cap)
        j += kinds("h_rdata", META, LV, cap=cap)
        j += kinds("h_rdata", META, (0,), feats=D, cap=cap)
        j += [(F, "h_opt", (n,), cap) for n in range(0, 5 if T else 4)]
        j += [(F, "h_apl", (), cap)]
        j += kinds("h_rdata_ptr", [K["TKEY"], K["TSIG"]], (0,), cap=cap)
        j += [(F, "h_codes", (7,), cap)]
    elif prop == "C25":
        j += [(F, "h_name_str", (n,), cap) for n in range(0, 9 if T else 7)]
        j += [(F, "h_local", (a, b), cap) for a, b in ((0, 0), (1, 0), (2, 0), (0, 1), (0, 2), (1, 1), (0, 9), (1, 9), (3, 9), (5, 9), (6, 9))]
        j += [(F, "h_name_display", (), cap), (F, "h_name_eq", (), cap)]
        j += [(F, "h_name_text", (n,), cap) for n in range(0, 5 if T else 4)]
        j += [(F, "h_name_encode", (n,), cap) for n in (0, 4, 5, 6)]
    elif prop == "C28":
        j += [(f, "h_equal_parts", (w,), cap if T else 60) for w in range(0, 7) for f in ((F, D) if w < 5 else (F,))]
        j += [(F, "h_name_eq", (), cap)]
        j += [(F, "h_equal", (k, 0, 0, w), cap) for k in ALL if T or k not in HEAVY for w in (1, 2)]
        j += [(F, "h_equal", (k, l, 0, 1), cap) for k in ALL for l in (EDGE if T else (10, 11, 14, 15)) if T or (k, l) != (K["NAPTR"], 10)]
    elif prop == "C29":
        for f in (F, D):
            j += [(f, "h_edit", (n, 0), cap) for n in (1, 2, 3)]
            j += [(f, "h_edit", (n, 1), cap if T else 60) for n in ((1, 2, 3) if T else (1, 2))]
        j += [(F, "h_edit_name", (n,), cap) for n in (range(1, 8) if T else range(1, 6))]
    elif prop == "C30":
        j += [(F, "h_addr", (w, 0), cap) for w in (0, 1, 4)]
        j += [(F, "h_addr", (2, n), cap) for n in (0, 1, 2, 3, 4) + tuple(range(7, 17))]
        j += [(F, "h_addr", (3, n), cap) for n in range(0, 12 if T else 9)]
    elif prop == "C31":
        j += [(f, "h_reject", (w,), cap) for w in range(0, 17) for f in (F, D)]
        j += [(F, "h_reject_rdata", (ty,), cap if T else 60) for ty in (42, 43, 44, 45, 46, 47, 48, 49, 52, 55, 59, 60, 62, 64, 249, 250)]
    return [x if len(x) == 4 else x + (cap,) for x in j]


SETS = ["F", "D", "S"]
# properties that look at some of the assertions of their entries only
ONLY = {"C11": ["size"]}
ASSUMPTIONS = [
    "rustc's translation of the crate and of std to LLVM IR (opt level 2 pipeline of opt, no vectorisation) preserves its meaning",
    "the engine's IR semantics, its models of the allocator, SipHash and the hash map seed (DESIGN.md) and Z3 4.8.12",
    "64-bit x86 target, allocation never fails, no threads (the crate has none)",
]
EXTRA = {p: ["digests and signature schemes are ideal (stubs/): a digest is its algorithm and input, a signature verifies for exactly the key, scheme and message it was made with; the sizes are not those of the real ones"]
         for p in ("C21", "C22")}
import meta
BOUNDS = {p["id"]: p["bounds"] for p in meta.P}
